--------------------------- MODULE Trace_Session ---------------------------
(***************************************************************************)
(* Is every recorded call of the sans-IO API allowed by Session?           *)
(***************************************************************************)
EXTENDS Session, TraceBase

VARIABLES i, s, bad, nv

vars == <<i, s, bad, nv>>

TraceInit == i = 1 /\ s = Init0 /\ bad = FALSE /\ nv = 0

InRange(v) == v >= MinBody /\ v <= BodyLen(MAXCONTENT)
Obs(e) == IF Has(e, "val") THEN e @@ [inr |-> InRange(e.val)] ELSE e

TraceNext ==
  /\ i <= Len(Trace)
  /\ i' = i + 1
  /\ LET e == Trace[i] IN
     IF e.op = "case" THEN s' = Init0 /\ bad' = FALSE /\ nv' = nv
     ELSE IF bad THEN UNCHANGED <<s, bad, nv>>
     ELSE LET E == IF Enabled(s, e) THEN Outcomes(s, e) ELSE {}
              fit == { o \in E : Agrees(Obs(e), o) }
          IN IF fit # {}
             THEN s' = Post(s, e, CHOOSE o \in fit : TRUE) /\ UNCHANGED <<bad, nv>>
             ELSE /\ Report(i, e,
                        IF ~Enabled(s, e) THEN "call not possible in this state"
                        ELSE IF E = {} THEN "no outcome allowed"
                        ELSE "result not allowed",
                        E)
                  /\ s' = s /\ bad' = TRUE /\ nv' = nv + 1

TraceSpec == TraceInit /\ [][TraceNext]_vars

(* Every line was consumed. *)
\* One state per line: no need to tell them apart by anything else.
Where == i
Complete == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
