------------------------------- MODULE Driver -------------------------------
(***************************************************************************)
(* The blocking and asynchronous drivers (io, futures): a handshake and a  *)
(* packet session over a byte transport that fragments, delays, interrupts *)
(* and fails.                                                              *)
(*                                                                         *)
(* The contract is stated on the bytes: the peer's stream is described by  *)
(* facts (its key, where the terminator occurs, which lengths the packets  *)
(* behind it declare and under which associated data each authenticates),  *)
(* and every result is a function of those facts and of how many bytes     *)
(* the transport has been willing to deliver - never of the fragmentation. *)
(***************************************************************************)
EXTENDS Params, Functions, SequencesExt

Disconnects == {"UnexpectedEof", "ConnectionReset", "ConnectionAborted"}
Suggestion(kind) == IF kind \in Disconnects THEN "RetryV1" ELSE "Abort"

NoStream == [ key |-> "ok", total |-> 0, occ |-> -1, pkts |-> <<>>, end |-> "silence" ]

D0 == [ ph |-> "none", iface |-> "sync", g |-> 0, decoys |-> <<>>,
        werr |-> [at |-> -1, kind |-> "none"],
        st |-> NoStream,
        got |-> 0,        \* packets of the stream consumed
        off |-> 0,        \* bytes of the stream consumed (from the key on)
        outN |-> 0,       \* packets sealed
        torn |-> FALSE,   \* a write has failed
        rerr |-> "none" ] \* first read error: none, io, hard

Flight1(d) == KEYLEN + d.g
Flight2(d) == TERM + SumSeq([i \in 1..Len(d.decoys) |-> PacketLen(d.decoys[i])]) + PacketLen(0)

(* ---------------------------------------------------------------------- *)
(* The handshake as a function of the bytes                                *)
(* ---------------------------------------------------------------------- *)
AuthOk(a, first) == a \in (IF first THEN {"g", "ge"} ELSE {"e", "ge"})

(* Packet k at off, the i-th; what the walk over the packets comes to. *)
WalkOn(avail, w, k) ==
  IF w.end THEN w
  ELSE LET stop(r) == [w EXCEPT !.end = TRUE, !.r = r] IN
       IF w.off + LENB > avail THEN stop([res |-> "wait"])
       ELSE IF k.len - TAG > LIMIT
       THEN stop([res |-> "PacketTooBig", mayWait |-> w.off + LENB + k.len > avail])
       ELSE IF w.off + LENB + k.len > avail THEN stop([res |-> "wait"])
       ELSE IF ~AuthOk(k.auth, w.i = 1) THEN stop([res |-> "Decryption"])
       ELSE IF IsDecoy(k.hdr) THEN [w EXCEPT !.i = @ + 1, !.off = @ + LENB + k.len]
       ELSE stop([res |-> "ok", got |-> w.i, off |-> w.off + LENB + k.len])
Walk(st, avail, off) ==
  FoldLeft(LAMBDA w, k : WalkOn(avail, w, k), [end |-> FALSE, i |-> 1, off |-> off, r |-> [res |-> "wait"]], st.pkts).r

(* avail bytes of the stream have been delivered. *)
HsRead(st, avail) ==
  IF avail < KEYLEN
  THEN IF avail >= 4 /\ st.key = "v1" THEN [res |-> "V1Protocol", mayWait |-> TRUE] ELSE [res |-> "wait"]
  ELSE IF st.key = "v1" THEN [res |-> "V1Protocol"]
  ELSE LET n == avail - KEYLEN IN
       IF st.occ >= 0 /\ st.occ <= MAXGARB /\ st.occ + TERM <= n
       THEN Walk(st, avail, KEYLEN + st.occ + TERM)
       ELSE IF n >= MAXGARB + TERM THEN [res |-> "NoGarbageTerminator"]
       ELSE [res |-> "wait"]

(* A V1 peer may be recognised after four bytes or after a whole key, an  *)
(* oversized packet when its length is known or when it has arrived.       *)
MayWait(r) == r.res = "wait" \/ (r.res \in {"V1Protocol", "PacketTooBig"} /\ "mayWait" \in DOMAIN r /\ r.mayWait)
Plain(r) == IF r.res = "ok" THEN r ELSE [res |-> r.res]

IoErr(kind) == [res |-> "Io", kind |-> kind, sug |-> Suggestion(kind)]
(* What waiting at the end of the stream turns into. *)
AtEnd(st) ==
  IF st.end = "silence" THEN { [res |-> "stuck"] }
  ELSE IF st.end = "eof" THEN { [res |-> "Io", kind |-> k, sug |-> "RetryV1"] : k \in Disconnects }
  ELSE { IoErr(st.end) }

(* A flush that was interrupted may be reported or tried again, not forgotten. *)
Retriable == "Interrupted"
RECURSIVE HsResults(_)
HsResults(d) ==
  LET r == HsRead(d.st, d.st.total)
      tooMuch == d.g > MAXGARB
      badDecoy == \E i \in 1..Len(d.decoys) : d.decoys[i] > MAXCONTENT
      err1 == d.werr.at >= 0 /\ d.werr.at < Flight1(d)
      err2 == d.werr.at >= Flight1(d) /\ d.werr.at < Flight1(d) + Flight2(d)
      keyIn == d.st.total >= KEYLEN /\ d.st.key # "v1"
  IN (IF d.werr.kind = Retriable THEN HsResults([d EXCEPT !.werr = [at |-> -1, kind |-> "none"]]) ELSE {}) \cup
     IF tooMuch THEN { [res |-> "TooMuchGarbage"] }
     ELSE IF err1 THEN { IoErr(d.werr.kind) }
     ELSE IF keyIn /\ badDecoy THEN { [res |-> "PacketTooBig"] }
     ELSE IF keyIn /\ err2 THEN { IoErr(d.werr.kind) }
     ELSE (IF MayWait(r) THEN AtEnd(d.st) ELSE {}) \cup (IF r.res = "wait" THEN {} ELSE { Plain(r) })

(* ---------------------------------------------------------------------- *)
(* What may be owed to the peer while the driver asks for more bytes, or   *)
(* when it reports a result: w bytes handed to the transport, f of them    *)
(* flushed, dlv bytes of the stream delivered.                             *)
(* ---------------------------------------------------------------------- *)
WaitOk(d, dlv, w, f) ==
  /\ d.g <= MAXGARB
  /\ w >= Flight1(d) /\ f >= Flight1(d)
  /\ (dlv >= KEYLEN =>
        /\ d.st.key # "v1"
        /\ w = Flight1(d) + Flight2(d) /\ f = w)
  /\ (dlv < KEYLEN => w = Flight1(d))
  (* bytes that complete the handshake are not waited beyond *)
  /\ MayWait(HsRead(d.st, dlv))

DoneOk(d, r, w, f) ==
  CASE r.res = "TooMuchGarbage" -> w = 0
    [] r.res = "V1Protocol" -> w = Flight1(d)
    [] r.res = "ok" -> w = Flight1(d) + Flight2(d) /\ f = w
    [] OTHER -> w <= Flight1(d) + Flight2(d)

(* The bytes written are the flights BIP-324 prescribes (facts). *)
FlightFacts(d) ==
  [ i \in 1..(Len(d.decoys) + 1) |->
      [ lk |-> At(i - 1), pk |-> At(i - 1), n |-> IF i <= Len(d.decoys) THEN d.decoys[i] ELSE 0,
        hdr |-> IF i <= Len(d.decoys) THEN 128 ELSE 0,
        aad |-> IF i = 1 THEN (IF d.g = 0 THEN "e" ELSE "own") ELSE "e", d |-> "own", same |-> TRUE ] ]

(* ---------------------------------------------------------------------- *)
(* The session                                                             *)
(* ---------------------------------------------------------------------- *)
(* avail: bytes of the stream the transport is willing to deliver by now.  *)
SessRead(d, avail) ==
  LET i == d.got + 1 IN
  IF d.off + LENB > avail \/ i > Len(d.st.pkts) THEN {"wait"}
  ELSE LET k == d.st.pkts[i] IN
       IF k.len - TAG > LIMIT
       THEN {"PacketTooBig"} \cup (IF d.off + LENB + k.len > avail THEN {"wait"} ELSE {})
       ELSE IF d.off + LENB + k.len > avail THEN {"wait"}
       ELSE IF ~AuthOk(k.auth, FALSE) THEN {"Decryption"}
       ELSE {"ok"}

ReadResults(d, r) ==
  LET kinds == SessRead(d, r.avail)
      i == d.got + 1
      end == r.avail >= d.st.total
      one(k) ==
        CASE k = "ok" -> { [res |-> "ok", idx |-> i, same |-> TRUE, ty |-> TypeOf(d.st.pkts[i].hdr),
                            n |-> d.st.pkts[i].len - BodyLen(0)] }
          [] k = "wait" -> IF end /\ d.st.end = "eof" THEN { [res |-> "Io", kind |-> q] : q \in Disconnects }
                           ELSE IF end /\ d.st.end # "silence" THEN { [res |-> "Io", kind |-> d.st.end] }
                           ELSE { [res |-> "pending"] }
          [] OTHER -> { [res |-> k] }
  IN (UNION { one(k) : k \in kinds })
     \cup (IF r.cancel THEN { [res |-> "cancelled"] } ELSE {})
     \cup (IF r.intr THEN { [res |-> "Io", kind |-> Retriable] } ELSE {})

(* The next packet, opened by the caller with the cipher handed out.       *)
RawOpenResults(d) ==
  LET i == d.got + 1 IN
  IF AuthOk(d.st.pkts[i].auth, FALSE) THEN { [res |-> "ok", idx |-> i, same |-> TRUE] } ELSE { [res |-> "Decryption"] }

(* After an error the stream is lost; nothing may be delivered any more    *)
(* except the packet that was due.                                         *)
ReadAfterError(d, o) == o.res # "panic" /\ (o.res = "ok" => d.rerr = "io" /\ o.idx = d.got + 1 /\ o.same)

WriteResults(d, r) ==
  LET need == PacketLen(r.n)
      fails == r.inj.at >= 0 /\ r.inj.at < need
      good == [res |-> "ok", w |-> need, unflushed |-> 0,
               pkt |-> [ lk |-> At(d.outN), pk |-> At(d.outN), n |-> r.n, hdr |-> HdrOf(r.ty), aad |-> "e",
                         d |-> "own", same |-> TRUE ]]
  IN IF r.n > MAXCONTENT THEN { [res |-> "PacketTooBig", w |-> 0] }
     ELSE IF fails THEN { [res |-> "Io", kind |-> r.inj.kind] }
                        \cup (IF r.inj.kind = Retriable THEN { good } ELSE {})
     ELSE { good }

(* Many packets in a row, reported as one step. *)
SumLen(q, a, b) == FoldFunctionOnSet(+, 0, [j \in a..b |-> LENB + q[j].len], a..b)
ReadsResult(d, r) ==
  LET q == d.st.pkts  a == d.got + 1  b == d.got + r.want IN
  [ ok |-> /\ b <= Len(q)
           /\ \A j \in a..b : AuthOk(q[j].auth, FALSE) /\ q[j].len - TAG <= LIMIT,
    bytes |-> IF b <= Len(q) THEN SumLen(q, a, b) ELSE 0 ]
WritesResult(d, r) ==
  [ n |-> r.want, w |-> r.sum + r.want * Overhead, unflushed |-> 0, first |-> At(d.outN),
    lastpos |-> At(d.outN + r.want - 1), same |-> TRUE, last |-> "ok" ]
=============================================================================
