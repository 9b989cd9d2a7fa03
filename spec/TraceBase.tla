----------------------------- MODULE TraceBase -----------------------------
(***************************************************************************)
(* Reading recorded executions and reporting disagreements.  A trace is a  *)
(* sequence of cases; `case' lines start from the initial state.  A line   *)
(* the specification does not allow is reported, and the rest of its case  *)
(* is skipped, so that one run reports every disagreeing case.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

Has(f, k) == k \in DOMAIN f
(* The observation agrees with an allowed outcome if every field of the    *)
(* outcome has the same value in the observation.                          *)
FieldEq(o, e, k) == Has(o, k) /\ o[k] = e[k]
Agrees(o, e) == \A k \in DOMAIN e : FieldEq(o, e, k)
DiffFields(o, e) == { k \in DOMAIN e : ~FieldEq(o, e, k) }

(* The allowed outcome closest to the observation, for the report.         *)
Closest(o, E) ==
  LET same == { e \in E : FieldEq(o, e, "res") } IN
  IF same # {} THEN CHOOSE e \in same : \A f \in same : Cardinality(DiffFields(o, e)) <= Cardinality(DiffFields(o, f))
  ELSE CHOOSE e \in E : TRUE

Report(line, e, why, allowed) ==
  PrintT("VIOL " \o ToJson([line |-> line, why |-> why, op |-> e.op, allowed |-> allowed]))
=============================================================================
