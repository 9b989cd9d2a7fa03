------------------------------- MODULE Stream -------------------------------
(***************************************************************************)
(* What a driver does with the bytes that follow the peer's public key:    *)
(* it looks for the garbage terminator, keeps what it read too much, and   *)
(* reads packets, first from those leftover bytes, then from the transport.*)
(* Any number of bytes and packets, split over reads in any way, with reads*)
(* interrupted or cancelled anywhere.                                      *)
(* Checked by Apalache as an inductive invariant, so without any bound on  *)
(* sizes, number of reads, packets or cancellations.                       *)
(*                                                                         *)
(* Bytes are identified by their offset in the stream.                     *)
(***************************************************************************)
EXTENDS Integers

CONSTANTS
  \* @type: Int;
  TERM,     \* size of the terminator (16)
  \* @type: Int;
  LIM,      \* the first occurrence of the terminator must end within so many bytes (4111)
  \* @type: Int;
  CHUNK,    \* most bytes asked for at a time during the search (any)
  \* @type: Int;
  LEN,      \* size of a length prefix (3)
  \* @type: Int;
  MINP,     \* smallest packet (17)
  \* @type: Int;
  TE,       \* offset at which the first occurrence of the terminator ends (0: there is none)
  \* @type: Int;
  N,        \* bytes the peer sends altogether
  \* @type: Str;
  BUG       \* "none", or a wrong rule the invariant must reject

VARIABLES
  \* @type: Str;
  ph,       \* scan, len, pkt; notfound, ended
  \* @type: Int;
  src,      \* bytes taken from the transport
  \* @type: Int;
  lft,      \* leftover bytes kept: those from TE to TE + lft
  \* @type: Int;
  pos,      \* ... and how many of them have been read
  \* @type: Int;
  start,    \* offset of the current packet
  \* @type: Int;
  from,     \* offset of the first byte wanted of the current part
  \* @type: Int;
  got,      \* bytes of the part received
  \* @type: Int;
  plen,     \* size of the packet, once known
  \* @type: Bool;
  whole     \* every part so far was made of the bytes at its own offsets

vars == <<ph, src, lft, pos, start, from, got, plen, whole>>

ConstInit ==
  /\ TERM = 16 /\ LIM = 4111 /\ LEN = 3 /\ MINP = 17
  /\ CHUNK \in Int /\ CHUNK >= 1
  /\ N \in Int /\ N >= 0
  /\ TE \in Int /\ TE >= 0 /\ (TE > 0 => TE >= TERM /\ TE <= N)
  /\ BUG = "none"
BugInit(b) ==
  /\ TERM = 16 /\ LIM = 4111 /\ LEN = 3 /\ MINP = 17
  /\ CHUNK \in Int /\ CHUNK >= 1
  /\ N \in Int /\ N >= 0
  /\ TE \in Int /\ TE >= 0 /\ (TE > 0 => TE >= TERM /\ TE <= N)
  /\ BUG = b
BugLost == BugInit("lost")
BugCancel == BugInit("cancel")
BugEarly == BugInit("early")
BugLate == BugInit("late")
BugSkip == BugInit("skip")

Init ==
  /\ ph = "scan" /\ src = 0 /\ lft = 0 /\ pos = 0 /\ start = 0 /\ from = 0 /\ got = 0 /\ plen = 0 /\ whole = TRUE

Want == IF ph = "len" THEN LEN ELSE plen
NextOffset == IF pos < lft THEN TE + pos ELSE src
\* May be found in what has been received so far.
Bound == IF BUG = "late" THEN LIM + CHUNK ELSE LIM
Found == TE > 0 /\ TE <= src /\ TE <= Bound

(* ---------------------------------------------------------------------- *)
ScanRead ==
  /\ ph = "scan" /\ ~Found /\ src < LIM
  /\ \E n \in Int :
       /\ n >= 1 /\ n <= (IF src < TERM THEN TERM - src ELSE CHUNK) /\ src + n <= N
       /\ src' = src + n
  /\ UNCHANGED <<ph, lft, pos, start, from, got, plen, whole>>
ScanEnd ==
  /\ ph = "scan" /\ ~Found
  /\ \/ src >= (IF BUG = "early" THEN LIM - 1 ELSE LIM)
     \/ src = N
  /\ ph' = "notfound"
  /\ UNCHANGED <<src, lft, pos, start, from, got, plen, whole>>
ScanFound ==
  /\ ph = "scan" /\ Found /\ src >= TERM
  /\ ph' = "len" /\ lft' = (IF BUG = "lost" THEN 0 ELSE src - TE) /\ pos' = 0 /\ start' = TE /\ from' = TE
  /\ UNCHANGED <<src, got, plen, whole>>

(* One read: whatever number of bytes is there, at least one, at most what is wanted. *)
ReadPart ==
  /\ ph \in {"len", "pkt"} /\ got < Want
  /\ \E n \in Int :
       /\ n >= 1 /\ n <= Want - got
       /\ whole' = (whole /\ NextOffset = from + got)
       /\ got' = got + n
       /\ IF pos < lft THEN n <= lft - pos /\ pos' = pos + n /\ src' = src
                       ELSE src + n <= N /\ pos' = pos /\ src' = src + n
  /\ UNCHANGED <<ph, lft, start, from, plen>>
ReadEnd ==
  /\ ph \in {"len", "pkt"} /\ got < Want /\ pos = lft /\ src = N
  /\ ph' = "ended"
  /\ UNCHANGED <<src, lft, pos, start, from, got, plen, whole>>
\* The length says what it says.
LengthRead ==
  /\ ph = "len" /\ got = LEN
  /\ \E p \in Int : p >= MINP /\ plen' = p
  /\ ph' = "pkt" /\ from' = start + LEN /\ got' = 0
  /\ UNCHANGED <<src, lft, pos, start, whole>>
PacketRead ==
  /\ ph = "pkt" /\ got = plen
  /\ ph' = "len" /\ start' = start + LEN + plen /\ from' = start + LEN + plen /\ got' = 0
  /\ lft' = (IF BUG = "skip" THEN pos ELSE lft)
  /\ UNCHANGED <<src, pos, plen, whole>>
\* A read interrupted, or dropped while it waits.
Cancel ==
  /\ ph \in {"scan", "len", "pkt"}
  /\ got' = (IF BUG = "cancel" /\ ph = "pkt" THEN 0 ELSE got)
  /\ UNCHANGED <<ph, src, lft, pos, start, from, plen, whole>>

Next == ScanRead \/ ScanEnd \/ ScanFound \/ ReadPart \/ ReadEnd \/ LengthRead \/ PacketRead \/ Cancel
Spec == Init /\ [][Next]_vars

(* ---------------------------------------------------------------------- *)
Reading == ph \in {"len", "pkt", "ended"}
IndInv ==
  /\ ph \in {"scan", "len", "pkt", "notfound", "ended"}
  /\ whole
  /\ src >= 0 /\ src <= N /\ lft >= 0 /\ pos >= 0 /\ pos <= lft /\ got >= 0
  /\ ph \in {"scan", "notfound"} => lft = 0 /\ got = 0 /\ src < LIM + CHUNK + TERM
  /\ ph = "notfound" => ~(TE > 0 /\ TE <= src /\ TE <= LIM) /\ (src >= LIM \/ src = N)
  /\ Reading =>
       /\ TE >= TERM /\ TE <= LIM
       /\ TE + lft <= src /\ (pos < lft => src = TE + lft)
       /\ NextOffset = from + got
       /\ from \in {start, start + LEN}
       /\ start >= TE
  /\ ph = "len" => from = start /\ got <= LEN
  /\ ph = "pkt" => from = start + LEN /\ got <= plen /\ plen >= MINP
  /\ ph = "ended" => pos = lft /\ src = N /\ got < (IF from = start THEN LEN ELSE plen)

IndInit ==
  /\ ph \in {"scan", "len", "pkt", "notfound", "ended"}
  /\ \E a \in Int : src = a
  /\ \E a \in Int : lft = a
  /\ \E a \in Int : pos = a
  /\ \E a \in Int : start = a
  /\ \E a \in Int : from = a
  /\ \E a \in Int : got = a
  /\ \E a \in Int : plen = a
  /\ whole \in BOOLEAN
  /\ IndInv

(* ---------------------------------------------------------------------- *)
(* C06, C07: whether the terminator is found depends on the bytes alone.   *)
FoundIffThere ==
  /\ ph = "notfound" => (TE = 0 \/ TE > LIM)
  /\ Reading => TE >= TERM /\ TE <= LIM
\* It is not given up before the last byte that could end it.
NotTooEarly == ph = "notfound" => src >= LIM \/ src = N
\* No more is taken than the limit and what one read brings.
Bounded == ph \in {"scan", "notfound"} => src < LIM + CHUNK + TERM
(* C07, C08: every part is made of its own bytes, and the next to come is the one after the last. *)
NothingLost == whole /\ (Reading => NextOffset = from + got)
\* The end of the stream is reported only when no whole packet is left in it.
EndInPart == ph = "ended" => N < from + (IF from = start THEN LEN ELSE plen)
Safety == FoundIffThere /\ NotTooEarly /\ Bounded /\ NothingLost /\ EndInPart

\* The vacuity guard: a packet lies partly in the leftover bytes and partly behind them.
NeverAcross == ~(ph = "pkt" /\ lft > 0 /\ pos = lft /\ from < TE + lft /\ from + got > TE + lft)
=============================================================================
