------------------------------- MODULE Params -------------------------------
(***************************************************************************)
(* The numbers of BIP-324 and of this implementation.  Exhaustive          *)
(* configurations shrink them; trace validation uses the real ones.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS
  REKEY,       \* packets per key generation (224)
  MAXGARB,     \* longest garbage (4095)
  TERM,        \* terminator bytes (16)
  KEYLEN,      \* ElligatorSwift public key bytes (64)
  LENB,        \* length prefix bytes (3)
  HDR,         \* header bytes (1)
  TAG,         \* tag bytes (16)
  LIMIT,       \* largest plaintext (header + contents) for automatic allocation (4000014)
  MAXCONTENT   \* largest contents a length prefix can express (2^24 - 1)

PARTIES == {"A", "B"}
Other(x) == IF x = "A" THEN "B" ELSE "A"
OtherRole(r) == IF r = "I" THEN "R" ELSE "I"

Overhead == LENB + HDR + TAG
PacketLen(n) == n + Overhead         \* whole packet on the wire
BodyLen(n) == n + HDR + TAG          \* packet without its length prefix
MinBody == HDR + TAG

(* Key generation and position within the generation of the n-th packet (from 0). *)
Gen(n) == n \div REKEY
Off(n) == n % REKEY
At(n)  == <<Gen(n), Off(n)>>

(* A header byte announces a decoy by its top bit alone. *)
IsDecoy(h) == h >= 128
TypeOf(h) == IF IsDecoy(h) THEN "D" ELSE "G"
HdrOf(t) == IF t = "D" THEN 128 ELSE 0

Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
RECURSIVE SumSeq(_)
SumSeq(q) == IF q = <<>> THEN 0 ELSE Head(q) + SumSeq(Tail(q))
=============================================================================
