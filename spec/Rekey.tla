------------------------------- MODULE Rekey -------------------------------
(***************************************************************************)
(* The two rotating ciphers of one direction, with the counters the code   *)
(* keeps, for any number of packets: the sender seals, the receiver opens, *)
(* refuses and fails, in any order and as far apart as the network allows. *)
(* Checked by Apalache as an inductive invariant, so without any bound on  *)
(* the number of packets.                                                  *)
(*                                                                         *)
(* Key number g of a cipher is the g-th it derives (0: the session's own). *)
(***************************************************************************)
EXTENDS Integers

CONSTANTS
  \* @type: Int;
  R,        \* packets per key (224)
  \* @type: Int;
  L,        \* bytes of the length stream per packet (3)
  \* @type: Int;
  K         \* bytes of the length stream that make the next key (32)

VARIABLES
  \* Counters of the sender: length cipher (key number, position in its stream, chunks), packet cipher (key number, packets).
  \* @type: { lkey: Int, block: Int, chunk: Int, pkey: Int, msg: Int };
  snd,
  \* ... and of the receiver.
  \* @type: { lkey: Int, block: Int, chunk: Int, pkey: Int, msg: Int };
  rcv,
  \* What an arbitrary earlier packet was sealed with (none: -1): its number, key and nonce, and where in
  \* which stream its length was.
  \* @type: { n: Int, pkey: Int, off: Int, div: Int, lkey: Int, ldiv: Int, at: Int };
  old

vars == <<snd, rcv, old>>

ZeroC == [ lkey |-> 0, block |-> 0, chunk |-> 0, pkey |-> 0, msg |-> 0 ]
NoOld == [ n |-> -1, pkey |-> -1, off |-> -1, div |-> -1, lkey |-> -1, ldiv |-> -1, at |-> -1 ]

ConstInit == R = 224 /\ L = 3 /\ K = 32

Init == snd = ZeroC /\ rcv = ZeroC /\ old = NoOld

\* The packet cipher makes a new key after the last packet of the old one.
\* @type: ({ lkey: Int, block: Int, chunk: Int, pkey: Int, msg: Int }) => { lkey: Int, block: Int, chunk: Int, pkey: Int, msg: Int };
AfterPacket(c) == [c EXCEPT !.msg = c.msg + 1, !.pkey = IF (c.msg + 1) % R = 0 THEN c.pkey + 1 ELSE c.pkey]
\* @type: ({ lkey: Int, block: Int, chunk: Int, pkey: Int, msg: Int }) => { lkey: Int, block: Int, chunk: Int, pkey: Int, msg: Int };
AfterLength(c) ==
  [c EXCEPT !.chunk = c.chunk + 1,
            !.block = IF (c.chunk + 1) % R = 0 THEN 0 ELSE c.block + L,
            !.lkey = IF (c.chunk + 1) % R = 0 THEN c.lkey + 1 ELSE c.lkey]

Seal ==
  /\ snd' = AfterLength(AfterPacket(snd))
  /\ \/ UNCHANGED old
     \/ old' = [ n |-> snd.msg, pkey |-> snd.pkey, off |-> snd.msg % R, div |-> snd.msg \div R,
                 lkey |-> snd.lkey, ldiv |-> snd.chunk \div R, at |-> snd.block ]
  /\ UNCHANGED rcv
\* The receiver decrypts the next length, then the packet; each once per packet.
OpenLength == rcv.chunk = rcv.msg /\ rcv.chunk < snd.chunk /\ rcv' = AfterLength(rcv) /\ UNCHANGED <<snd, old>>
OpenPacket == rcv.chunk = rcv.msg + 1 /\ rcv' = AfterPacket(rcv) /\ UNCHANGED <<snd, old>>
\* Refused calls and failed authentication.
Refused == UNCHANGED vars
Next == Seal \/ OpenLength \/ OpenPacket \/ Refused
Spec == Init /\ [][Next]_vars

(* ---------------------------------------------------------------------- *)
\* @type: ({ lkey: Int, block: Int, chunk: Int, pkey: Int, msg: Int }) => Bool;
InStep(c) ==
  /\ c.msg >= 0 /\ c.chunk >= 0
  /\ c.pkey = c.msg \div R
  /\ c.lkey = c.chunk \div R
  /\ c.block = L * (c.chunk % R)
OldIs ==
  \/ old = NoOld
  \/ /\ old.n >= 0 /\ old.n < snd.msg
     /\ old.pkey = old.n \div R /\ old.div = old.n \div R /\ old.off = old.n % R
     /\ old.lkey = old.n \div R /\ old.ldiv = old.n \div R /\ old.at = L * (old.n % R)
IndInv ==
  /\ InStep(snd) /\ snd.chunk = snd.msg
  /\ InStep(rcv) /\ rcv.chunk \in {rcv.msg, rcv.msg + 1} /\ rcv.chunk <= snd.chunk
  /\ OldIs

\* For induction: any state the invariant allows.
IndInit ==
  /\ \E a, b, d, e, f \in Int : snd = [ lkey |-> a, block |-> b, chunk |-> d, pkey |-> e, msg |-> f ]
  /\ \E a, b, d, e, f \in Int : rcv = [ lkey |-> a, block |-> b, chunk |-> d, pkey |-> e, msg |-> f ]
  /\ \E a, b, d, e, f, g, h \in Int : old = [ n |-> a, pkey |-> b, off |-> d, div |-> e, lkey |-> f, ldiv |-> g, at |-> h ]
  /\ IndInv

(* ---------------------------------------------------------------------- *)
\* What C05 states, implied by the invariant.
PacketNonceUnique ==
  old.n >= 0 => ~(old.pkey = snd.pkey /\ old.off = snd.msg % R /\ old.div = snd.msg \div R)
\* No byte of a length stream is used twice, and none makes a key as well.
LengthStreamUnique ==
  old.n >= 0 =>
    ~(old.lkey = snd.lkey /\ old.ldiv = snd.chunk \div R /\ old.at < snd.block + L /\ snd.block < old.at + L)
KeyBytesUnused == (snd.block + L) <= R * L
\* A key lasts exactly R packets: the key changes between two packets iff a multiple of R lies between them.
ExactlyR == snd.pkey * R <= snd.msg /\ snd.msg < (snd.pkey + 1) * R /\ snd.lkey = snd.pkey
\* Whatever was refused, the packet the receiver opens next is sealed as it expects.
InStepWithSender ==
  (old.n = rcv.msg) => old.pkey = rcv.pkey /\ old.off = rcv.msg % R /\ old.div = rcv.msg \div R
LengthInStep ==
  (old.n = rcv.chunk) => old.lkey = rcv.lkey /\ old.at = rcv.block /\ old.ldiv = rcv.chunk \div R
Safety == PacketNonceUnique /\ LengthStreamUnique /\ KeyBytesUnused /\ ExactlyR /\ InStepWithSender /\ LengthInStep

\* The vacuity guard: an earlier packet of an earlier key is remembered.
NeverRotates == ~(old.n >= 0 /\ old.pkey < snd.pkey)
=============================================================================
