------------------------------ MODULE Session ------------------------------
(***************************************************************************)
(* A BIP-324 connection at the level of the sans-IO API: the handshake     *)
(* state machine of each party and, after it, the packet layer.            *)
(*                                                                         *)
(* The state `s' is a record; a call is a request record `r' (the          *)
(* arguments); `Outcomes(s, r)' is the set of results the specification    *)
(* allows for the call and `Post(s, r, o)' the state after result `o'.     *)
(* The exhaustive configurations (MC_Session) and the validation of        *)
(* recorded executions (Trace_Session) use these same definitions.         *)
(*                                                                         *)
(* Cryptography is symbolic.  A session is the triple <<initiator key,     *)
(* responder key, magic>> as seen by a party; sealing keys are identified  *)
(* by (session, role of the sealer, generation); a packet opens only under *)
(* exactly the key, nonce and associated data it was sealed with.          *)
(***************************************************************************)
EXTENDS Params

None == "none"
NoSess == <<0, 0, 0>>

NewParty ==
  [ ph    |-> "none",     \* none init sentkey recvkey sentver garb done dead ref
    role  |-> "I", magic |-> 0, key |-> 0, rng |-> 0,
    glen  |-> 0,          \* garbage sent
    gid   |-> "e",        \* identity of the garbage sent ("e" = empty)
    sess  |-> NoSess,
    outN  |-> 0,          \* packets sealed
    inLen |-> 0,          \* length prefixes decrypted
    inPkt |-> 0,          \* packets opened
    rgid  |-> "e",        \* identity of the garbage received
    first |-> TRUE,       \* next packet to open is the first after the terminator
    rcv   |-> <<>> ]      \* packets accepted, as indices into sealed

Init0 == [ p      |-> [x \in PARTIES |-> NewParty],
           sealed |-> <<>>,
           rngs   |-> {},      \* (source, key) pairs of caller-supplied random sources
           keys   |-> {} ]     \* keys drawn from the library's own source

(* ---------------------------------------------------------------------- *)
(* Symbolic keys                                                           *)
(* ---------------------------------------------------------------------- *)
SessOf(pp, theirKey) ==
  IF pp.role = "I" THEN <<pp.key, theirKey, pp.magic>>
                   ELSE <<theirKey, pp.key, pp.magic>>
OutDir(pp) == <<pp.sess, pp.role>>
InDir(pp)  == <<pp.sess, OtherRole(pp.role)>>

(* What is on the wire for a packet sealed as the n-th of its direction.   *)
Facts(n, len, hdr, aad) ==
  [ lk |-> At(n), pk |-> At(n), n |-> len, hdr |-> hdr, aad |-> aad,
    d |-> "own", same |-> TRUE ]

Sealed(pp, n, len, hdr, aad) ==
  [ dir |-> OutDir(pp), pos |-> n, n |-> len, hdr |-> hdr, aad |-> aad ]

(* Is the presented ciphertext the packet this party expects next?         *)
(* src = 0: bytes nobody sealed.  mut # "none": altered in transit.        *)
Authentic(s, x, src, mut, aad) ==
  /\ mut = "none"
  /\ src > 0
  /\ LET k == s.sealed[src]
         pp == s.p[x]
     IN  /\ k.dir = InDir(pp)
         /\ k.pos = pp.inPkt
         /\ k.aad = aad

(* The length prefix decrypts to the true length exactly in lock step.     *)
LenMatches(s, x, src) ==
  /\ src > 0
  /\ LET k == s.sealed[src]
         pp == s.p[x]
     IN k.dir = InDir(pp) /\ k.pos = pp.inLen

(* ---------------------------------------------------------------------- *)
(* Outcomes                                                                *)
(* ---------------------------------------------------------------------- *)
Ok == [res |-> "ok"]
Err(e) == [res |-> e]
TooSmall(n) == [res |-> "BufferTooSmall", need |-> n]

(* A caller-supplied source determines the key; the library's own source   *)
(* never yields a key seen before.                                         *)
NewOutcomes(s, r) ==
  IF r.rng = -1                                  \* source yields an invalid secret
  THEN { Err("SecretGeneration") }
  ELSE IF r.rng > 0
  THEN LET known == { q \in s.rngs : q[1] = r.rng }
       IN { [res |-> "ok", valid |-> TRUE,
             key |-> IF known # {} THEN (CHOOSE q \in known : TRUE)[2] ELSE r.fresh] }
  ELSE { [res |-> "ok", valid |-> TRUE, key |-> 0] }      \* known once it is sent

SendKeyOutcomes(s, r) ==
  LET need == KEYLEN + r.g IN
  IF r.g > MAXGARB THEN { Err("TooMuchGarbage") } \cup
       (IF r.buf < need THEN { TooSmall(need) } ELSE {})
  ELSE IF r.buf < need THEN { TooSmall(need) }
  ELSE IF s.p[r.x].rng = 0 /\ r.fresh \in s.keys THEN {}  \* a key seen before
  ELSE { [res |-> "ok", lenfn |-> need, gok |-> TRUE, tail |-> TRUE,
          key |-> IF s.p[r.x].rng = 0 THEN r.fresh ELSE s.p[r.x].key] }

RecvKeyOutcomes(s, r) ==
  IF r.v1 THEN { Err("V1Protocol") } ELSE { Ok }

VersionLen(decoys) ==
  TERM + SumSeq([i \in 1..Len(decoys) |-> PacketLen(decoys[i])]) + PacketLen(0)

(* Decoys in order, then the empty version packet; the garbage that was    *)
(* sent is associated data of the first of them and of no other.           *)
VersionFacts(pp, decoys) ==
  [ i \in 1..(Len(decoys) + 1) |->
      LET aad == IF i = 1 THEN pp.gid ELSE "e" IN
      IF i <= Len(decoys) THEN Facts(pp.outN + i - 1, decoys[i], 128, aad)
                          ELSE Facts(pp.outN + i - 1, 0, 0, aad) ]

SendVerOutcomes(s, r) ==
  LET pp == s.p[r.x]
      need == VersionLen(r.decoys)
  IN IF \E i \in 1..Len(r.decoys) : r.decoys[i] > MAXCONTENT
     THEN { Err("PacketTooBig") } \cup (IF r.buf < need THEN { TooSmall(need) } ELSE {})
     ELSE IF r.buf < need THEN { TooSmall(need) }
     ELSE { [res |-> "ok", lenfn |-> need, term |-> "own",
             pkts |-> VersionFacts(pp, r.decoys), tail |-> TRUE] }

(* occ: position of the first occurrence of the peer's terminator in the   *)
(* bytes presented, -1 if there is none; n: number of bytes presented.     *)
RecvGarbOutcomes(s, r) ==
  IF r.occ >= 0 /\ r.occ <= MAXGARB
  THEN { [res |-> "found", used |-> r.occ + TERM] }
  ELSE IF r.n >= MAXGARB + TERM THEN { Err("NoGarbageTerminator") }
  ELSE { Err("more") }

(* Any three bytes decrypt to some length; the right one in lock step.     *)
(* `inr' says that the length is in the range three bytes can express.     *)
LenOutcomes(s, r) ==
  IF LenMatches(s, r.x, r.src) /\ r.mut = "none"
  THEN { [res |-> "ok", inr |-> TRUE, val |-> BodyLen(s.sealed[r.src].n)] }
  ELSE { [res |-> "ok", inr |-> TRUE] }

RecvVerOutcomes(s, r) ==
  LET pp == s.p[r.x]
      aad == IF pp.first THEN pp.rgid ELSE "e"
  IN IF r.clen < MinBody THEN { Err("CiphertextTooSmall") }
     ELSE IF Authentic(s, r.x, r.src, r.mut, aad)
     THEN { IF IsDecoy(s.sealed[r.src].hdr) THEN Err("decoy") ELSE Err("complete") }
     ELSE { Err("Decryption") }

SealOutcomes(s, r) ==
  LET pp == s.p[r.x]
      need == PacketLen(r.n)
  IN IF r.n > MAXCONTENT
     THEN { Err("PacketTooBig") }
          \cup (IF r.buf < need THEN { TooSmall(need) } ELSE {})
          \cup (IF r.api = "vec" THEN { Err("panic") } ELSE {})   \* documented: cannot report an error
     ELSE IF r.buf < need THEN { TooSmall(need) }
     ELSE { [res |-> "ok", lenfn |-> need, tail |-> TRUE,
             pkt |-> Facts(pp.outN, r.n, HdrOf(r.ty), r.aad)] }

(* A refused packet stays in the caller's hands unchanged (the in-place call *)
(* works on the caller's own buffer), so that the corrected call can use it. *)
Intact(set) == { [o \in DOMAIN e \cup {"kept"} |-> IF o = "kept" THEN TRUE ELSE e[o]] : e \in set }
OpenOutcomes(s, r) ==
  LET good == Authentic(s, r.x, r.src, r.mut, r.aad)
      plain == r.clen - TAG
  IN IF r.clen < MinBody
     THEN Intact({ Err("CiphertextTooSmall") })
     ELSE LET refuse == Intact(
                (IF r.api = "vec" /\ plain > LIMIT THEN { Err("PacketTooBig") } ELSE {})
                \cup (IF r.api = "buf" /\ r.buf < plain THEN { TooSmall(plain) } ELSE {}))
          IN IF good
             THEN IF refuse # {} THEN refuse
                  ELSE { [res |-> "ok", ty |-> TypeOf(s.sealed[r.src].hdr),
                          hdr |-> s.sealed[r.src].hdr, same |-> TRUE, tail |-> TRUE] }
             ELSE refuse \cup Intact({ Err("Decryption") })

(* The ciphers handed out after the handshake and the session id.          *)
DoneOutcomes(s, r) == { [res |-> "ok", sid |-> s.p[r.x].sess] }

(* A run of n packets sealed by r.x (and opened by its peer if r.opened),  *)
(* reported per key generation: <<generation, first offset, last offset>>. *)
RECURSIVE Segments(_, _)
Segments(from, n) ==
  IF n = 0 THEN <<>>
  ELSE LET k == Min(n, REKEY - Off(from)) IN
       << <<Gen(from), Off(from), Off(from) + k - 1>> >> \o Segments(from + k, n - k)
(* A long run is reported one generation at a time, so the recursion is shallow. *)
BulkOutcomes(s, r) ==
  LET x == r.x IN
  { [res |-> "ok",
     segs |-> IF r.seal THEN Segments(s.p[x].outN, r.n) ELSE <<>>,
     bad |-> 0] }

Outcomes(s, r) ==
  CASE r.op = "new"      -> NewOutcomes(s, r)
    [] r.op = "sendkey"  -> SendKeyOutcomes(s, r)
    [] r.op = "recvkey"  -> RecvKeyOutcomes(s, r)
    [] r.op = "sendver"  -> SendVerOutcomes(s, r)
    [] r.op = "recvgarb" -> RecvGarbOutcomes(s, r)
    [] r.op = "hslen"    -> LenOutcomes(s, r)
    [] r.op = "recvver"  -> RecvVerOutcomes(s, r)
    [] r.op = "done"     -> DoneOutcomes(s, r)
    [] r.op = "seal"     -> SealOutcomes(s, r)
    [] r.op = "declen"   -> LenOutcomes(s, r)
    [] r.op = "open"     -> OpenOutcomes(s, r)
    [] r.op = "bulk"     -> BulkOutcomes(s, r)
    [] OTHER             -> { Ok }     \* refkey, refsess, refseal: acts of the reference peer

(* ---------------------------------------------------------------------- *)
(* Effects                                                                 *)
(* ---------------------------------------------------------------------- *)
Dead(s, x) == [s EXCEPT !.p[x].ph = "dead"]

RECURSIVE SealAll(_, _, _)
SealAll(s, x, fs) ==
  IF fs = <<>> THEN s
  ELSE LET f == Head(fs)
           pp == s.p[x]
       IN SealAll([s EXCEPT !.sealed = Append(@, Sealed(pp, pp.outN, f.n, f.hdr, f.aad)),
                            !.p[x].outN = @ + 1], x, Tail(fs))

Post(s, r, o) ==
  LET x == r.x IN
  CASE r.op = "new" ->
         IF o.res = "ok"
         THEN [s EXCEPT !.p[x] = [NewParty EXCEPT !.ph = "init", !.role = r.role,
                                    !.magic = r.magic, !.key = o.key, !.rng = r.rng],
                        !.rngs = IF r.rng > 0 THEN @ \cup {<<r.rng, o.key>>} ELSE @]
         ELSE Dead(s, x)
    [] r.op = "sendkey" ->
         IF o.res = "ok"
         THEN [s EXCEPT !.p[x].ph = "sentkey", !.p[x].glen = r.g, !.p[x].gid = r.gid,
                        !.p[x].key = o.key,
                        !.keys = IF s.p[x].rng = 0 THEN @ \cup {o.key} ELSE @]
         ELSE Dead(s, x)
    [] r.op = "recvkey" ->
         IF o.res = "ok"
         THEN [s EXCEPT !.p[x].ph = "recvkey", !.p[x].sess = SessOf(s.p[x], r.key)]
         ELSE Dead(s, x)
    [] r.op = "sendver" ->
         IF o.res = "ok"
         THEN LET t == SealAll(s, x, VersionFacts(s.p[x], r.decoys))
              IN [t EXCEPT !.p[x].ph = "sentver"]
         ELSE Dead(s, x)
    [] r.op = "recvgarb" ->
         IF o.res = "found"
         THEN [s EXCEPT !.p[x].ph = "garb", !.p[x].rgid = r.gid]
         ELSE IF o.res = "more" THEN s ELSE Dead(s, x)
    [] r.op \in {"hslen", "declen"} -> [s EXCEPT !.p[x].inLen = @ + 1]
    [] r.op = "recvver" ->
         IF o.res \in {"decoy", "complete"}
         THEN [s EXCEPT !.p[x].ph = IF o.res = "complete" THEN "done" ELSE "garb",
                        !.p[x].inPkt = @ + 1, !.p[x].first = FALSE,
                        !.p[x].rcv = Append(@, r.src)]
         ELSE Dead(s, x)
    [] r.op = "seal" ->
         IF o.res = "ok" THEN SealAll(s, x, <<o.pkt>>) ELSE s
    [] r.op = "open" ->
         IF o.res = "ok"
         THEN [s EXCEPT !.p[x].inPkt = @ + 1, !.p[x].rcv = Append(@, r.src)]
         ELSE s
    [] r.op = "bulk" ->
         LET t == IF r.seal THEN [s EXCEPT !.p[x].outN = @ + r.n] ELSE s
         IN IF r.open THEN [t EXCEPT !.p[Other(x)].inLen = @ + r.n,
                                     !.p[Other(x)].inPkt = @ + r.n]
            ELSE t
    [] r.op = "refkey" ->
         [s EXCEPT !.p[x] = [NewParty EXCEPT !.ph = "ref", !.role = r.role,
                               !.magic = r.magic, !.key = r.key]]
    [] r.op = "refsess" -> [s EXCEPT !.p[x].sess = SessOf(s.p[x], r.key)]
    [] r.op = "refseal" ->
         [s EXCEPT !.sealed = Append(@, [dir |-> <<s.p[x].sess, r.d>>, pos |-> r.pos,
                                         n |-> r.n, hdr |-> r.hdr, aad |-> r.aad])]
    [] OTHER -> s

(* Typestate: which call may follow.  The Rust types enforce it; here it   *)
(* guards against a harness that would log nonsense.                       *)
Enabled(s, r) ==
  LET ph == s.p[r.x].ph IN
  CASE r.op = "sendkey"  -> ph = "init"
    [] r.op = "recvkey"  -> ph = "sentkey"
    [] r.op = "sendver"  -> ph = "recvkey"
    [] r.op = "recvgarb" -> ph = "sentver"
    [] r.op \in {"hslen", "recvver"} -> ph = "garb"
    [] r.op \in {"done", "seal", "declen", "open"} -> ph = "done"
    [] OTHER -> TRUE
=============================================================================
