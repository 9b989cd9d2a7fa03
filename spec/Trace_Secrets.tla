----------------------------- MODULE Trace_Secrets -----------------------------
EXTENDS Secrets, TraceBase
VARIABLES i, s, seen
vars == <<i, s, seen>>
TraceInit == i = 1 /\ s = F0 /\ seen = FALSE
TraceNext ==
  /\ i <= Len(Trace)
  /\ i' = i + 1
  /\ LET e == Trace[i] IN
     IF e.op = "case" THEN s' = F0 /\ seen' = FALSE
     ELSE /\ s' = SecNext(s, e)
          /\ IF SecBad(s, e) # {} /\ ~seen
             THEN Report(i, e, CHOOSE r \in SecBad(s, e) : TRUE, {}) /\ seen' = TRUE
             ELSE UNCHANGED seen
TraceSpec == TraceInit /\ [][TraceNext]_vars
\* One state per line: no need to tell them apart by anything else.
Where == i
Complete == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
