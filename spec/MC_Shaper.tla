------------------------------ MODULE MC_Shaper ------------------------------
(***************************************************************************)
(* The two shaping algorithms, step by step, against the contract Shaper:  *)
(*  - asynchronous: callers queue commands for a task that owns the writer,*)
(*    selects between commands and ticks, and answers on a channel;        *)
(*  - blocking: callers and the decoy thread share a locked writer, the    *)
(*    thread only tries the lock, a failed decoy is left as an error for   *)
(*    the next caller, dropping raises a flag and joins.                   *)
(* The transport takes a packet in two steps (part, rest) whenever the     *)
(* environment lets it, and may fail in any packet.                        *)
(* BUG selects a deliberate mistake; the contract must notice each.        *)
(***************************************************************************)
EXTENDS Shaper, TLC, Json

CONSTANTS N,        \* calls
          TICKS,    \* ticks that produce a decoy
          MINCALLS, \* drop only after so many
          BUG,      \* "none" or a deliberate mistake
          RECORD    \* record the environment's choices

VARIABLES m,        \* state of the contract
          bad,      \* rules broken so far
          w,        \* worker (task or thread): [pc, cur, part]
          u,        \* blocking caller inside the lock: [pc, cur, part]
          q,        \* commands waiting (asynchronous)
          res,      \* answers
          call,     \* what callers know
          shut, lock, derr, failed, ticks, hist,
          inb,      \* packets of the peer that wait to be read
          failat    \* fail only after so many packets
vars == <<inb, failat, m, bad, w, u, q, res, call, shut, lock, derr, failed, ticks, hist>>

Ev(o) == o
RECURSIVE Fold(_, _, _)
Fold(s, b, es) == IF es = <<>> THEN <<s, b>>
                  ELSE Fold(ShNext(s, Head(es)), b \union ShBad(s, Head(es)), Tail(es))
Emit(es) == LET r == Fold(m, bad, es) IN m' = r[1] /\ bad' = r[2]
Note(x) == hist' = IF RECORD THEN Append(hist, x) ELSE hist
Quiet == hist' = hist

PktD == [op |-> "pkt", ty |-> "D", cnt |-> 1, min |-> 1, max |-> 1]
PktG(k) == [op |-> "pkt", ty |-> "G", n |-> 1, id |-> k, same |-> TRUE, mark |-> TRUE]
RetE(k, r) == [op |-> "ret", id |-> k, res |-> r, flushed |-> TRUE, big |-> FALSE]
Torn == IF m.torn THEN <<>> ELSE <<[op |-> "torn"]>>
(* After a failure nothing that reaches the wire is a packet any more. *)
Wire(e) == IF m.torn THEN <<[op |-> "more"]>> ELSE <<e>>
Rel == [op |-> "released", res |-> TRUE]

Idle == [pc |-> "idle", cur |-> 0, part |-> 0]
Async == m.iface = "async"
Out == { k \in 1..N : call[k] = "out" }
FirstPc == IF m.pad /\ BUG # "nopad" THEN "pad" ELSE "gen"

Init ==
  /\ \E i \in {"async", "sync"}, p \in BOOLEAN, d \in BOOLEAN :
       /\ m = [S0 EXCEPT !.iface = i, !.pad = p, !.dec = d, !.ph = "open"]
       /\ hist = IF RECORD THEN <<<<i, p, d>>>> ELSE <<>>
  /\ bad = {} /\ w = Idle /\ u = Idle /\ q = <<>>
  /\ res = [k \in 1..N |-> "none"] /\ call = [k \in 1..N |-> "no"]
  /\ shut = FALSE /\ lock = "free" /\ derr = FALSE /\ failed = FALSE /\ ticks = 0
  /\ inb = 0
  /\ failat \in (IF RECORD THEN {0, 1, 2, 4, 6, 99} ELSE {0})

---------------------------------------------------------------------------
(* callers *)
Call ==
  LET k == Len(m.calls) + 1 IN
  /\ k <= N /\ Out = {} /\ ~m.dropped /\ ~shut
  /\ IF Async /\ w.pc = "done"
     THEN /\ Emit(<<[op |-> "call", id |-> k], RetE(k, IF BUG = "okwhendead" THEN "ok" ELSE "Io")>>)
          /\ call' = [call EXCEPT ![k] = "err"] /\ UNCHANGED q
     ELSE /\ Emit(<<[op |-> "call", id |-> k]>>)
          /\ call' = [call EXCEPT ![k] = "out"]
          /\ q' = IF Async THEN Append(q, k) ELSE q
  /\ Note("call")
  /\ UNCHANGED <<w, u, res, shut, lock, derr, failed, ticks>>

Cancel == \E k \in Out :
  /\ Async
  /\ Emit(<<[op |-> "cancel", id |-> k]>>)
  /\ call' = [call EXCEPT ![k] = "can"]
  /\ Note("cancel")
  /\ UNCHANGED <<w, u, q, res, shut, lock, derr, failed, ticks>>

Ret == \E k \in Out :
  /\ Async /\ res[k] # "none"
  /\ Emit(<<RetE(k, res[k])>>)
  /\ call' = [call EXCEPT ![k] = IF res[k] = "ok" THEN "ok" ELSE "err"]
  /\ Quiet /\ UNCHANGED <<w, u, q, res, shut, lock, derr, failed, ticks>>

Drop ==
  /\ Out = {} /\ ~m.dropped /\ ~shut /\ (Len(m.calls) >= MINCALLS \/ m.torn)
  /\ IF Async THEN Emit(<<[op |-> "drop", res |-> "ok"]>>) /\ shut' = TRUE
     ELSE UNCHANGED <<m, bad>> /\ shut' = TRUE
  /\ Note("drop")
  /\ UNCHANGED <<w, u, q, res, call, lock, derr, failed, ticks>>

\* The reading half is dropped or fails: nothing to the writing half.
ReaderDrop ==
  /\ ~RECORD /\ ~m.rgone /\ ~m.dropped /\ ~shut
  /\ Emit(<<[op |-> "rgone"]>>)
  /\ Quiet /\ UNCHANGED <<w, u, q, res, call, shut, lock, derr, failed, ticks>>

---------------------------------------------------------------------------
(* the asynchronous worker *)
Recv ==
  /\ Async /\ w.pc = "idle" /\ q # <<>>
  /\ IF BUG = "skipcancelled" /\ call[Head(q)] = "can"
     THEN UNCHANGED w
     ELSE w' = [pc |-> FirstPc, cur |-> Head(q), part |-> 0]
  /\ q' = Tail(q)
  /\ res' = IF BUG = "earlyack" THEN [res EXCEPT ![Head(q)] = "ok"] ELSE res
  /\ Quiet /\ UNCHANGED <<m, bad, u, call, shut, lock, derr, failed, ticks>>

Tick ==
  /\ ticks < TICKS /\ w.pc = "idle"
  /\ m.dec \/ BUG = "alwaysdecoy"
  /\ IF Async THEN UNCHANGED lock
     ELSE (lock = "free" \/ BUG = "nolock") /\ ~shut /\ lock' = "worker"
  /\ w' = [pc |-> "dec", cur |-> 0, part |-> 0]
  /\ ticks' = ticks + 1
  /\ Note("tick")
  /\ UNCHANGED <<m, bad, u, q, res, call, shut, derr, failed>>

Part ==
  /\ \/ w.pc \in {"pad", "gen", "dec"} /\ w.part = 0 /\ w' = [w EXCEPT !.part = 1] /\ UNCHANGED u
     \/ u.pc \in {"pad", "gen"} /\ u.part = 0 /\ u' = [u EXCEPT !.part = 1] /\ UNCHANGED w
  /\ Note("part")
  /\ UNCHANGED <<m, bad, q, res, call, shut, lock, derr, failed, ticks>>

(* two writers in the middle of a packet at once would tear both *)
Clash == w.part = 1 /\ u.part = 1

WRest ==
  /\ w.part = 1
  /\ CASE w.pc = "pad" -> /\ Emit(Wire(PktD)) /\ w' = [w EXCEPT !.pc = "gen", !.part = 0]
                          /\ UNCHANGED <<res, lock>>
       [] w.pc = "gen" -> /\ Emit(Wire(PktG(w.cur))) /\ w' = Idle
                          /\ res' = [res EXCEPT ![w.cur] = "ok"] /\ UNCHANGED lock
       [] OTHER -> /\ Emit(Wire(IF Clash THEN [op |-> "pkt", ty |-> "?"] ELSE PktD)) /\ w' = Idle
                   /\ lock' = (IF lock = "worker" THEN "free" ELSE lock) /\ UNCHANGED res
  /\ Note("rest")
  /\ UNCHANGED <<u, q, call, shut, derr, failed, ticks>>

(* What becomes of the commands when the task ends: their senders see a closed channel. *)
Closed(r, left) == [k \in 1..N |-> IF \E j \in 1..Len(left) : left[j] = k THEN "Io" ELSE r[k]]

WFail ==
  /\ ~failed /\ m.nG + m.nD >= failat /\ w.pc \in {"pad", "gen", "dec"}
  /\ failed' = TRUE
  /\ IF Async
     THEN LET r1 == IF w.pc = "dec" THEN res ELSE [res EXCEPT ![w.cur] = IF BUG = "padignored" /\ w.pc = "pad" THEN @ ELSE "Io"] IN
          IF w.pc = "dec" /\ BUG = "nobreak"
          THEN Emit(Torn) /\ w' = Idle /\ UNCHANGED <<res, q, derr, lock>>
          ELSE IF w.pc = "pad" /\ BUG = "padignored"
          THEN Emit(Torn) /\ w' = [w EXCEPT !.pc = "gen", !.part = 0] /\ UNCHANGED <<res, q, derr, lock>>
          ELSE /\ Emit(Torn \o <<Rel>>) /\ w' = [Idle EXCEPT !.pc = "done"]
               /\ res' = Closed(r1, q) /\ q' = <<>> /\ UNCHANGED <<derr, lock>>
     ELSE /\ Emit(Torn)
          /\ w' = [Idle EXCEPT !.pc = IF BUG = "nobreak" THEN "idle" ELSE "done"]
          /\ derr' = (BUG # "noderr") /\ lock' = "free" /\ UNCHANGED <<res, q>>
  /\ Note("fail")
  /\ UNCHANGED <<u, call, shut, ticks>>

AExit ==
  /\ Async /\ w.pc = "idle" /\ (shut \/ m.dropped \/ (BUG = "readergone" /\ m.rgone)) /\ (q = <<>> \/ BUG = "exitearly") /\ BUG # "noexit"
  /\ w' = [Idle EXCEPT !.pc = "done"]
  /\ Emit(<<Rel>>)
  /\ res' = Closed(res, q) /\ q' = <<>>
  /\ Quiet /\ UNCHANGED <<u, call, shut, lock, derr, failed, ticks>>

---------------------------------------------------------------------------
(* the blocking writer *)
Acquire == \E k \in Out :
  /\ ~Async /\ u.pc = "idle"
  /\ lock = "free" \/ BUG = "nolock"
  /\ IF derr
     THEN /\ Emit(<<RetE(k, "Io")>>) /\ derr' = FALSE
          /\ call' = [call EXCEPT ![k] = "err"] /\ UNCHANGED <<u, lock>>
     ELSE /\ u' = [pc |-> FirstPc, cur |-> k, part |-> 0] /\ lock' = "user"
          /\ UNCHANGED <<m, bad, derr, call>>
  /\ Quiet /\ UNCHANGED <<w, q, res, shut, failed, ticks>>

URest ==
  /\ u.part = 1
  /\ IF u.pc = "pad"
     THEN Emit(Wire(PktD)) /\ u' = [u EXCEPT !.pc = "gen", !.part = 0] /\ UNCHANGED <<call, lock>>
     ELSE /\ Emit(Wire(IF Clash THEN [op |-> "pkt", ty |-> "?"] ELSE PktG(u.cur)) \o <<RetE(u.cur, "ok")>>)
          /\ u' = Idle /\ lock' = "free" /\ call' = [call EXCEPT ![u.cur] = "ok"]
  /\ Note("rest")
  /\ UNCHANGED <<w, q, res, shut, derr, failed, ticks>>

UFail ==
  /\ ~failed /\ m.nG + m.nD >= failat /\ u.pc \in {"pad", "gen"}
  /\ failed' = TRUE
  /\ IF u.pc = "pad" /\ BUG = "padignored"
     THEN Emit(Torn) /\ u' = [u EXCEPT !.pc = "gen", !.part = 0] /\ UNCHANGED <<call, lock>>
     ELSE Emit(Torn \o <<RetE(u.cur, "Io")>>) /\ u' = Idle /\ lock' = "free" /\ call' = [call EXCEPT ![u.cur] = "err"]
  /\ Note("fail")
  /\ UNCHANGED <<w, q, res, shut, derr, ticks>>

SExit ==
  /\ ~Async /\ w.pc = "idle" /\ shut /\ BUG # "noexit"
  /\ w' = [Idle EXCEPT !.pc = "done"]
  /\ Quiet /\ UNCHANGED <<m, bad, u, q, res, call, shut, lock, derr, failed, ticks>>

Joined ==
  /\ ~Async /\ shut /\ ~m.dropped
  /\ w.pc = "done" \/ BUG = "nojoin"
  /\ Emit(<<[op |-> "drop", res |-> "ok"], [op |-> "released", res |-> w.pc = "done"]>>)
  /\ Quiet /\ UNCHANGED <<w, u, q, res, call, shut, lock, derr, failed, ticks>>

---------------------------------------------------------------------------
(* The reading half: a packet of the peer arrives and is read, whatever the writing half is doing. *)
Busy == w.part = 1 \/ u.part = 1
Arrive ==
  /\ ~RECORD /\ inb = 0 /\ m.readN = 0 /\ inb' = 1
  /\ UNCHANGED <<m, bad, w, u, q, res, call, shut, lock, derr, failed, ticks, hist>>
CanRead == inb = 1 /\ ~m.rgone /\ (BUG = "readlock" => ~Busy)
Gone == m.dropped \/ m.torn
Read ==
  /\ CanRead
  /\ Emit(<<[op |-> "read", res |-> IF BUG = "readend" /\ Gone THEN "Io" ELSE "ok", idx |-> m.readN + 1, same |-> TRUE,
              mark |-> TRUE, left |-> inb, stuck |-> Busy]>>)
  /\ inb' = 0
  /\ UNCHANGED <<w, u, q, res, call, shut, lock, derr, failed, ticks, hist>>

Worker == Recv \/ WRest \/ Part \/ AExit \/ SExit \/ Joined \/ Acquire \/ URest \/ Ret
Next0 == Call \/ Cancel \/ Drop \/ ReaderDrop \/ Tick \/ WFail \/ UFail \/ Worker
Next == ((Next0 /\ UNCHANGED inb) \/ Arrive \/ Read) /\ UNCHANGED failat
Kept == UNCHANGED <<inb, failat>>
Spec == Init /\ [][Next]_vars
        /\ WF_vars(Recv /\ Kept)
        /\ WF_vars(WRest /\ Kept)
        /\ WF_vars(Part /\ Kept)
        /\ WF_vars(AExit /\ Kept)
        /\ WF_vars(SExit /\ Kept)
        /\ WF_vars(Joined /\ Kept)
        /\ WF_vars(Acquire /\ Kept)
        /\ WF_vars(URest /\ Kept)
        /\ WF_vars(Ret /\ Kept)
        /\ WF_vars(Read /\ UNCHANGED failat)

Contract == bad = {}
(* liveness: callers are answered, dropping releases the transport *)
Answered == \A k \in 1..N : (call[k] = "out") ~> (call[k] # "out")
Freed == shut ~> m.released
(* at most one packet is being written at any time *)
OneWriter == ~(w.pc \in {"pad", "gen", "dec"} /\ u.pc \in {"pad", "gen"})
(* a waiting packet can be read at once, even if the writing half hangs in the middle of a packet for ever *)
ReaderFree == (inb = 1 /\ ~m.rgone) => ENABLED Read
HasRead == (inb = 1) ~> (inb = 0 \/ m.rgone)
(* when all is said and done on a working transport, every call is on the wire *)
Delivered == (m.released /\ ~m.torn) => Unsent(m) = {}

EndNow == ~ENABLED Next
GenInv == (RECORD /\ m.released /\ Len(hist) > 1) => PrintT("BEH " \o ToJson(hist))
==============================================================================
