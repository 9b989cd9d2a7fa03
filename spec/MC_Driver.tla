------------------------------ MODULE MC_Driver ------------------------------
(***************************************************************************)
(* The algorithm of the drivers over an adversarial transport: every read  *)
(* returns any number of bytes, may be interrupted or pend, a pending      *)
(* asynchronous session read may be dropped and started again, writes are  *)
(* accepted in pieces, and both directions may fail anywhere.  Checked     *)
(* against the contract of Driver, which does not mention any of that.     *)
(***************************************************************************)
EXTENDS Driver, TLC, Json

CONSTANTS
  BUF,        \* bytes asked for at a time while looking for the terminator
  OWN,        \* own garbage lengths
  OWNDECOYS,  \* own decoy lists
  GARBAGES,   \* peer garbage lengths
  SIZES,      \* contents sizes of the peer's packets
  NPKT,       \* at most so many packets
  FIRST,      \* outcomes of authentication of the first packet
  LATER,      \* ... and of the others
  KEYS,       \* ok, v1, foreign
  ENDS,       \* what follows the stream
  CUTS,       \* TRUE: streams stop anywhere
  WERRS,      \* TRUE: writes fail anywhere
  CANCEL,     \* TRUE: reads may be cancelled
  GEN         \* TRUE: record and print behaviours

OwnDecoysNone == { <<>> }
OwnDecoysSome == { <<>>, <<1>>, <<2, 0>> }
OwnDecoysBig == { <<>>, <<1>>, <<4>> }

VARIABLES c,     \* configuration (a record D0-like; c.st: the peer's stream)
          pc, wr, fl, dlv,
          buf,   \* bytes in the garbage buffer
          lo,    \* bytes of it left over for the session
          have,  \* bytes of the current exact read
          i,     \* packet being read
          res,   \* result of the handshake
          out,   \* packets delivered by session reads
          last,  \* result of the last session read
          hist   \* chunk boundaries: <<position, kind>>
vars == <<c, pc, wr, fl, dlv, buf, lo, have, i, res, out, last, hist>>

RECURSIVE SeqsUpTo(_, _)
SeqsUpTo(S, n) == IF n = 0 THEN { <<>> } ELSE LET p == SeqsUpTo(S, n - 1) IN p \cup { Append(q, x) : q \in { r \in p : Len(r) = n - 1 }, x \in S }

(* Packets with a wrong tag end the description.  Without garbage both      *)
(* associated data are the same.                                            *)
PktsOf(A) == { [len |-> BodyLen(n), auth |-> a, hdr |-> IF a = "none" THEN -1 ELSE h] :
               n \in SIZES, a \in A, h \in {0, 128} }
PktSeqs == { q \in SeqsUpTo(PktsOf(FIRST \cup LATER), NPKT) :
               /\ \A k \in 1..Len(q) : (q[k].auth = "none" => k = Len(q))
               /\ \A k \in 1..Len(q) : q[k].auth \in (IF k = 1 THEN FIRST ELSE LATER) }
PktTotal(q) == SumSeq([k \in 1..Len(q) |-> LENB + q[k].len])

(* A stream cut short: what is left of the description. *)
RECURSIVE Clip(_, _)
Clip(q, n) ==
  IF q = <<>> \/ n < LENB THEN <<>>
  ELSE IF LENB + q[1].len > n THEN << [q[1] EXCEPT !.auth = "cut", !.hdr = -1] >>
  ELSE <<q[1]>> \o Clip(Tail(q), n - LENB - q[1].len)

GoodStream(k, g, q, t) ==
  LET full == KEYLEN + g + TERM + PktTotal(q) IN
  /\ t <= full
  /\ (~CUTS => t = full)
  /\ (k # "ok" => g = 0 /\ q = <<>>)
  /\ \A p \in 1..Len(q) : q[p].auth \in (IF g = 0 THEN {"ge", "none"} ELSE {"e", "g", "none"})

MkStream(k, g, q, t, e) ==
  [ key |-> k, total |-> t, occ |-> IF k = "ok" /\ t >= KEYLEN + g + TERM THEN g ELSE -1,
    pkts |-> IF t >= KEYLEN + g + TERM THEN Clip(q, t - KEYLEN - g - TERM) ELSE <<>>, end |-> e ]

Init ==
  /\ \E k \in KEYS, g \in GARBAGES, q \in PktSeqs, e \in ENDS, og \in OWN, od \in OWNDECOYS :
     \E t \in (IF CUTS THEN 0..(KEYLEN + g + TERM + PktTotal(q)) ELSE {KEYLEN + g + TERM + PktTotal(q)}) :
     \E w \in (IF WERRS THEN -1..(KEYLEN + og + Flight2([decoys |-> od]) - 1) ELSE {-1}) :
       /\ GoodStream(k, g, q, t)
       /\ c = [D0 EXCEPT !.ph = "hs", !.g = og, !.decoys = od, !.st = MkStream(k, g, q, t, e),
                         !.werr = [at |-> w, kind |-> IF w >= 0 THEN "BrokenPipe" ELSE "none"]] @@ [pg |-> g]
  /\ pc = "w1" /\ wr = 0 /\ fl = 0 /\ dlv = 0 /\ buf = 0 /\ lo = 0 /\ have = 0 /\ i = 1
  /\ res = [res |-> "none"] /\ out = <<>> /\ last = [res |-> "none"] /\ hist = <<>>

Rest == c.st.total - dlv
Done(r) == res' = r /\ pc' = "done"
Note(pos, kind) == IF GEN THEN hist' = Append(hist, <<pos, kind>>) ELSE UNCHANGED hist

(* What the algorithm decides, by name, so that the Bug_Driver configurations   *)
(* can replace one decision by a wrong one and the contract must notice.        *)
Accepts(a, first) == AuthOk(a, first)
Flushed(w) == w
LeftAfter(b, t) == b - t
TooLong(len) == len - TAG > LIMIT
GiveUp(b) == b >= MAXGARB + TERM
Occurs(occ, b) == occ >= 0 /\ occ <= MAXGARB /\ occ + TERM <= b
IsV1(k) == k = "v1"
Skips(h) == IsDecoy(h)
AfterKey == "w2"
AfterFailure(n) == "lost"
Kept(n) == n

\* Wrong decisions.
AnyAad(a, first) == a # "none"
NoAad(a, first) == AuthOk(a, FALSE)
GarbageAad(a, first) == AuthOk(a, TRUE)
NeverFlushed(w) == 0
LeftLost(b, t) == 0
LeftTwice(b, t) == IF b > t THEN b - t + 1 ELSE 0
NeverTooLong(len) == FALSE
GiveUpEarly(b) == b >= MAXGARB
GiveUpNever(b) == FALSE
OccursBelow(occ, b) == occ >= 0 /\ occ < MAXGARB /\ occ + TERM <= b
OccursBeyond(occ, b) == occ >= 0 /\ occ + TERM <= b
NeverV1(k) == FALSE
NeverSkips(h) == FALSE
AlwaysSkips(h) == TRUE
ReadFirst == "rt"
GoOn(n) == "sl"
Forgotten(n) == 0

(* ---------------------------------------------------------------------- *)
(* Writing                                                                 *)
(* ---------------------------------------------------------------------- *)
WriteTo(target, next) ==
  \/ \E n \in 1..(target - wr) :
       /\ (c.werr.at >= 0 => wr + n <= c.werr.at)
       /\ (GEN => n = target - wr)
       /\ wr' = wr + n
       /\ pc' = IF wr' = target THEN next ELSE pc
       /\ UNCHANGED <<c, fl, dlv, buf, lo, have, i, res, out, last, hist>>
  \/ /\ c.werr.at = wr /\ wr < target
     /\ Done(IoErr(c.werr.kind))
     /\ UNCHANGED <<c, wr, fl, dlv, buf, lo, have, i, out, last, hist>>
Flush(next) ==
  /\ fl' = Flushed(wr) /\ pc' = next
  /\ UNCHANGED <<c, wr, dlv, buf, lo, have, i, res, out, last, hist>>

Write1 ==
  /\ pc = "w1"
  /\ IF c.g > MAXGARB THEN Done([res |-> "TooMuchGarbage"]) /\ UNCHANGED <<c, wr, fl, dlv, buf, lo, have, i, out, last, hist>>
     ELSE WriteTo(Flight1(c), "f1")
Flush1 == pc = "f1" /\ Flush("rk")
KeyIn ==
  /\ pc = "rk" /\ have = KEYLEN
  /\ IF IsV1(c.st.key) THEN Done([res |-> "V1Protocol"])
     ELSE IF \E k \in 1..Len(c.decoys) : c.decoys[k] > MAXCONTENT THEN Done([res |-> "PacketTooBig"])
     ELSE pc' = AfterKey /\ UNCHANGED res
  /\ have' = 0
  /\ UNCHANGED <<c, wr, fl, dlv, buf, lo, i, out, last, hist>>
Write2 == pc = "w2" /\ WriteTo(Flight1(c) + Flight2(c), "f2")
Flush2 == pc = "f2" /\ Flush("rt")

(* ---------------------------------------------------------------------- *)
(* Reading                                                                 *)
(* ---------------------------------------------------------------------- *)
(* What the current step wants from the transport (0: nothing). *)
Want ==
  CASE pc = "rk" -> KEYLEN - have
    [] pc = "rt" -> TERM - have
    [] pc = "rg" -> BUF
    [] pc \in {"rl", "sl"} -> IF lo > 0 THEN 0 ELSE LENB - have
    [] pc \in {"rp", "sp"} -> IF lo > 0 THEN 0 ELSE c.st.pkts[i].len - have
    [] OTHER -> 0

Transfer ==
  /\ Want > 0 /\ Rest > 0
  /\ \E n \in 1..Min(Want, Rest) :
       /\ dlv' = dlv + n
       /\ IF pc = "rg" THEN buf' = buf + n /\ UNCHANGED have ELSE have' = have + n /\ UNCHANGED buf
       /\ IF n < Min(Want, Rest) THEN Note(dlv + n, 0) ELSE UNCHANGED hist
  /\ UNCHANGED <<c, pc, wr, fl, lo, i, res, out, last>>
Fresh == ~(Len(hist) >= 2 /\ \A k \in {Len(hist), Len(hist) - 1} : hist[k][1] = dlv /\ hist[k][2] > 0)
(* Not ready, or interrupted: nothing happens, the driver asks again. *)
Pause ==
  /\ GEN /\ Want > 0 /\ Rest > 0 /\ Fresh
  /\ Note(dlv, 1)
  /\ UNCHANGED <<c, pc, wr, fl, dlv, buf, lo, have, i, res, out, last>>
(* The stream is over. *)
Over ==
  /\ Want > 0 /\ Rest = 0
  /\ IF pc \in {"sl", "sp"}
     THEN /\ last' \in { r \in AtEnd(c.st) : TRUE } /\ pc' = "lost" /\ UNCHANGED res
     ELSE /\ res' \in AtEnd(c.st) /\ pc' = "done" /\ UNCHANGED last
  /\ UNCHANGED <<c, wr, fl, dlv, buf, lo, have, i, out, hist>>
(* Leftover bytes of the terminator search are read first. *)
Leftover ==
  /\ lo > 0 /\ pc \in {"rl", "rp", "sl", "sp"}
  /\ LET want == (IF pc \in {"rl", "sl"} THEN LENB ELSE c.st.pkts[i].len) - have
         n == Min(want, lo)
     IN want > 0 /\ lo' = lo - n /\ have' = have + n
  /\ UNCHANGED <<c, pc, wr, fl, dlv, buf, i, res, out, last, hist>>

TermStart ==
  /\ pc = "rt" /\ have = TERM
  /\ buf' = TERM /\ have' = 0 /\ pc' = "rc"
  /\ UNCHANGED <<c, wr, fl, dlv, lo, i, res, out, last, hist>>
Search ==
  /\ pc = "rc"
  /\ IF Occurs(c.st.occ, buf)
     THEN pc' = "rl" /\ lo' = LeftAfter(buf, c.st.occ + TERM) /\ UNCHANGED res
     ELSE IF GiveUp(buf) THEN Done([res |-> "NoGarbageTerminator"]) /\ UNCHANGED lo
     ELSE pc' = "rg" /\ UNCHANGED <<lo, res>>
  /\ UNCHANGED <<c, wr, fl, dlv, buf, have, i, out, last, hist>>
(* After any bytes the search starts again. *)
More ==
  /\ pc = "rg" /\ Rest > 0
  /\ \E n \in 1..Min(BUF, Rest) :
       /\ dlv' = dlv + n /\ buf' = buf + n
       /\ IF n < Min(BUF, Rest) THEN Note(dlv + n, 0) ELSE UNCHANGED hist
  /\ pc' = "rc"
  /\ UNCHANGED <<c, wr, fl, lo, have, i, res, out, last>>

HsLen ==
  /\ pc = "rl" /\ have = LENB
  /\ have' = 0
  /\ IF TooLong(c.st.pkts[i].len) THEN Done([res |-> "PacketTooBig"]) ELSE pc' = "rp" /\ UNCHANGED res
  /\ UNCHANGED <<c, wr, fl, dlv, buf, lo, i, out, last, hist>>
HsPkt ==
  /\ pc = "rp" /\ have = c.st.pkts[i].len
  /\ have' = 0
  /\ IF ~Accepts(c.st.pkts[i].auth, i = 1) THEN Done([res |-> "Decryption"]) /\ UNCHANGED i
     ELSE IF Skips(c.st.pkts[i].hdr) THEN pc' = "rl" /\ i' = i + 1 /\ UNCHANGED res
     ELSE /\ pc' = "sl" /\ i' = i + 1
          /\ res' = [res |-> "ok", got |-> i, off |-> dlv - lo]
  /\ UNCHANGED <<c, wr, fl, dlv, buf, lo, out, last, hist>>

(* ---------------------------------------------------------------------- *)
(* Session reads; `have' survives a cancelled read                         *)
(* ---------------------------------------------------------------------- *)
SessLen ==
  /\ pc = "sl" /\ have = LENB
  /\ have' = 0 /\ pc' = "sp"
  /\ UNCHANGED <<c, wr, fl, dlv, buf, lo, i, res, out, last, hist>>
SessPkt ==
  /\ pc = "sp" /\ have = c.st.pkts[i].len
  /\ LET p == c.st.pkts[i] IN
     IF TooLong(p.len) THEN last' = [res |-> "PacketTooBig"] /\ pc' = "lost" /\ UNCHANGED <<out, i, have>>
     ELSE IF ~Accepts(p.auth, FALSE) THEN last' = [res |-> "Decryption"] /\ pc' = AfterFailure(i) /\ UNCHANGED out /\
            (IF pc' = "sl" THEN i' = i + 1 /\ have' = 0 ELSE UNCHANGED <<i, have>>)
     ELSE /\ out' = Append(out, i) /\ i' = i + 1 /\ have' = 0 /\ pc' = "sl"
          /\ last' = [res |-> "ok", idx |-> i]
  /\ UNCHANGED <<c, wr, fl, dlv, buf, lo, res, hist>>
(* The caller drops the pending read and reads again. *)
Cancel ==
  /\ CANCEL /\ pc \in {"sl", "sp"} /\ Want > 0 /\ Rest > 0
  /\ (GEN => Fresh)   \* without history this is the identity: the state machine keeps what it has
  /\ Note(dlv, 2)
  /\ have' = Kept(have)
  /\ UNCHANGED <<c, pc, wr, fl, dlv, buf, lo, i, res, out, last>>

TransferNotSearch == pc # "rg" /\ Transfer
Next ==
  \/ Write1 \/ Flush1 \/ KeyIn \/ Write2 \/ Flush2
  \/ TransferNotSearch \/ More \/ Over \/ Leftover \/ Pause
  \/ TermStart \/ Search \/ HsLen \/ HsPkt \/ SessLen \/ SessPkt \/ Cancel
  \/ (pc \in {"done", "lost"} /\ UNCHANGED vars)

(* A waiting step: bytes are wanted and there are none or some. *)
Waiting == pc \in {"rk", "rt", "rg", "rl", "rp"} /\ Want > 0
Fairness == WF_vars(Next)
Spec == Init /\ [][Next]_vars /\ Fairness

(* ---------------------------------------------------------------------- *)
(* The contract                                                            *)
(* ---------------------------------------------------------------------- *)
NeverWaitsInDebt == Waiting => WaitOk(c, dlv, wr, fl)
ResultAsStated == pc = "done" => res \in HsResults(c) /\ DoneOk(c, res, wr, fl)
OpenAsStated ==
  pc \in {"sl", "sp", "lost"} =>
    /\ res \in HsResults(c) /\ res.res = "ok" /\ wr = Flight1(c) + Flight2(c) /\ fl = wr
    /\ LET h == HsRead(c.st, c.st.total) IN h.res = "ok" /\ h.got = res.got /\ h.off = res.off
(* No byte is lost, repeated or reordered: what was taken is what was consumed, held or left over. *)
Consumed == IF i <= 1 THEN 0 ELSE SumSeq([k \in 1..(i - 1) |-> LENB + c.st.pkts[k].len])
BytesConserved ==
  pc \in {"rl", "rp", "sl", "sp"} =>
    dlv = KEYLEN + c.st.occ + TERM + Consumed + (IF pc \in {"rp", "sp"} THEN LENB ELSE 0) + have + lo
(* Delivered: every packet after the handshake, in order. *)
DeliveredInOrder == out = [k \in 1..Len(out) |-> res.got + k]
DeliveredRight == \A k \in 1..Len(out) : LET p == c.st.pkts[out[k]] IN p.auth \in {"e", "ge"} /\ p.len - TAG <= LIMIT
(* A session read ends as the contract says. *)
dAt == [c EXCEPT !.ph = "open", !.got = i - 1, !.off = KEYLEN + c.st.occ + TERM + Consumed]
LostAsStated ==
  pc = "lost" =>
    LET kinds == SessRead(dAt, c.st.total) IN
    \/ last.res \in {"PacketTooBig", "Decryption"} /\ last.res \in kinds
    \/ last.res \in {"stuck", "Io"} /\ "wait" \in kinds
Inv == NeverWaitsInDebt /\ ResultAsStated /\ OpenAsStated /\ BytesConserved /\ DeliveredInOrder /\ DeliveredRight /\ LostAsStated

(* Every handshake ends, or waits for a silent peer. *)
Ends == <>(pc \in {"done", "lost"})

(* ---------------------------------------------------------------------- *)
(* Behaviours for replay                                                   *)
(* ---------------------------------------------------------------------- *)
GenEnd == GEN /\ pc \in {"done", "lost"}
GenBound == Len(hist) <= 14
NotYet == ~GenEnd
GenNext ==
  \/ /\ ~GenEnd /\ Next /\ GenBound'
  \/ /\ GenEnd /\ pc' = "printed" /\ UNCHANGED <<c, wr, fl, dlv, buf, lo, have, i, res, out, last, hist>>
     /\ PrintT("BEH " \o ToJson([ g |-> c.g, pg |-> c.pg, decoys |-> c.decoys, st |-> c.st, hist |-> hist,
                                  res |-> res.res, out |-> out ]))
GenSpec == Init /\ [][GenNext]_vars
=============================================================================
