---------------------------- MODULE Trace_Shaper ----------------------------
(* Is every recorded event of a shaped connection allowed? *)
EXTENDS Shaper, TraceBase
VARIABLES i, s, seen
vars == <<i, s, seen>>
Prop == IF "PROP" \in DOMAIN IOEnv THEN IOEnv.PROP ELSE ""
Mine(r) == Prop = "" \/ \E k \in 1..Len(r[1]) : r[1][k] = Prop
TraceInit == i = 1 /\ s = S0 /\ seen = FALSE
TraceNext ==
  /\ i <= Len(Trace)
  /\ i' = i + 1
  /\ LET e == Trace[i] IN
     IF e.op = "case" THEN s' = S0 /\ seen' = FALSE
     ELSE LET bad == {r \in ShBad(s, e) : Mine(r)} IN
          /\ s' = ShNext(s, e)
          /\ IF bad # {} /\ ~seen
             THEN Report(i, e, (CHOOSE r \in bad : TRUE)[2], {}) /\ seen' = TRUE
             ELSE UNCHANGED seen
TraceSpec == TraceInit /\ [][TraceNext]_vars
\* One state per line: no need to tell them apart by anything else.
Where == i
Complete == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
