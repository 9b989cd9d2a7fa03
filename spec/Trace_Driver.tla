---------------------------- MODULE Trace_Driver ----------------------------
(***************************************************************************)
(* Is every recorded step of a driver over a scripted transport allowed?   *)
(***************************************************************************)
EXTENDS Driver, TraceBase

VARIABLES i, d, bad
vars == <<i, d, bad>>

TraceInit == i = 1 /\ d = D0 /\ bad = FALSE

(* Each step: <<why (empty if allowed), allowed outcomes, next state>>. *)
Ok(t) == <<"", {}, t>>
Fail(why, E) == <<why, E, d>>
Pick(e, E) == { o \in E : Agrees(e, o) }

StepHs(e) ==
  LET E == HsResults(d)
      fit == Pick(e, E)
      (* "ok" carries the specification's own position, not an observation *)
      fit2 == IF e.res = "ok" THEN { o \in E : o.res = "ok" } ELSE fit
  IN IF fit2 = {} THEN Fail("handshake result", E)
     ELSE LET o == CHOOSE o \in fit2 : TRUE IN
          IF ~DoneOk(d, o, e.w, e.f) THEN Fail("bytes sent by the time of the result", {[flight1 |-> Flight1(d), flight2 |-> Flight2(d)]})
          ELSE IF e.w >= Flight1(d) /\ d.g <= MAXGARB /\ ~e.f1 THEN Fail("first flight", {})
          ELSE IF e.w = Flight1(d) + Flight2(d) /\ d.st.key # "foreign" /\ e.f2 # [term |-> "own", pkts |-> FlightFacts(d)]
               THEN Fail("second flight", {[term |-> "own", pkts |-> FlightFacts(d)]})
          ELSE IF o.res = "ok"
               THEN Ok([d EXCEPT !.ph = "open", !.got = o.got, !.off = o.off, !.outN = Len(d.decoys) + 1])
               ELSE Ok([d EXCEPT !.ph = "failed"])

StepRead(e) ==
  IF d.rerr # "none"
  THEN IF ReadAfterError(d, e) THEN Ok(d) ELSE Fail("delivered after an error", {})
  ELSE LET E == ReadResults(d, e)
           fit == Pick(e, E)
       IN IF fit = {} THEN Fail("packet read", E)
          ELSE CASE e.res = "ok" -> Ok([d EXCEPT !.got = @ + 1, !.off = @ + LENB + d.st.pkts[d.got + 1].len])
                 [] e.res \in {"pending", "cancelled"} -> Ok(d)
                 (* an asynchronous read that was interrupted is tried again *)
                 [] e.res = "Io" /\ e.intr /\ e.kind = Retriable -> Ok(d)
                 [] e.res = "Io" -> Ok([d EXCEPT !.rerr = "io"])
                 [] OTHER -> Ok([d EXCEPT !.rerr = "hard"])

StepWrite(e) ==
  IF d.torn THEN IF e.res = "panic" THEN Fail("panic", {}) ELSE Ok(d)
  ELSE LET E == WriteResults(d, e)
           fit == Pick(e, E)
       IN IF fit = {} THEN Fail("packet write", E)
          ELSE IF e.res = "ok" THEN Ok([d EXCEPT !.outN = @ + 1])
          ELSE IF e.res = "Io" THEN Ok([d EXCEPT !.torn = TRUE])
          ELSE Ok(d)

Step(e) ==
  CASE e.op = "drv" -> Ok([D0 EXCEPT !.ph = "hs", !.iface = e.iface, !.g = e.g, !.decoys = e.decoys, !.werr = e.werr])
    [] e.op = "stream" -> Ok([d EXCEPT !.st = [key |-> e.key, total |-> e.total, occ |-> e.occ, pkts |-> e.pkts, end |-> e.end]])
    [] e.op = "wait" -> IF WaitOk(d, e.dlv, e.w, e.f) THEN Ok(d)
                        ELSE Fail("waiting for the peer", {[flight1 |-> Flight1(d), flight2 |-> Flight2(d), hs |-> HsRead(d.st, e.dlv)]})
    [] e.op = "hs" -> StepHs(e)
    [] e.op = "read" -> StepRead(e)
    [] e.op = "write" -> StepWrite(e)
    (* n raw bytes taken from the reader handed out: exactly the next bytes of the stream *)
    [] e.op = "raw" -> IF e.same /\ e.n = Min(e.want, d.st.total - d.off)
                       THEN Ok([d EXCEPT !.off = @ + e.n]) ELSE Fail("bytes of the reader handed out", {})
    (* a packet opened with the raw ciphers from raw bytes *)
    [] e.op = "rawopen" -> LET E == RawOpenResults(d)
                               fit == Pick(e, E)
                           IN IF fit = {} THEN Fail("packet opened with the ciphers handed out", E)
                              ELSE IF e.res = "ok" THEN Ok([d EXCEPT !.got = @ + 1]) ELSE Ok([d EXCEPT !.rerr = "hard"])
    [] e.op = "reads" -> LET E == ReadsResult(d, e) IN
                         IF E.ok /\ e.avail >= d.off + E.bytes /\ e.n = e.want /\ e.same
                         THEN Ok([d EXCEPT !.got = @ + e.n, !.off = @ + E.bytes])
                         ELSE Fail("packets read in a row", {E})
    [] e.op = "writes" -> LET E == WritesResult(d, e) IN
                          IF Agrees(e, E) THEN Ok([d EXCEPT !.outN = @ + e.n]) ELSE Fail("packets written in a row", {E})
    [] OTHER -> Fail("unknown event", {})

TraceNext ==
  /\ i <= Len(Trace)
  /\ i' = i + 1
  /\ LET e == Trace[i] IN
     IF e.op = "case" THEN d' = D0 /\ bad' = FALSE
     ELSE IF bad THEN UNCHANGED <<d, bad>>
     ELSE LET s == Step(e) IN
          IF s[1] = "" THEN d' = s[3] /\ UNCHANGED bad
          ELSE Report(i, e, s[1], s[2]) /\ bad' = TRUE /\ UNCHANGED d

TraceSpec == TraceInit /\ [][TraceNext]_vars
\* One state per line: no need to tell them apart by anything else.
Where == i
Complete == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
