----------------------------- MODULE MC_Session -----------------------------
(***************************************************************************)
(* Session with an adversary that owns the network: it decides which key,  *)
(* garbage and packets each endpoint is given (replayed, reordered,        *)
(* reflected, altered, cut, or never sent by anyone), in which order the   *)
(* two endpoints run, and how large the buffers are that callers offer.    *)
(*                                                                         *)
(* Used in two ways.  Exhaustively (MC_Session*.cfg): the properties hold  *)
(* in every reachable state of small configurations.  As a generator       *)
(* (Gen_Session*.cfg): the behaviours are printed as request sequences and *)
(* replayed into the real code, whose answers are then validated against   *)
(* Session by Trace_Session.                                               *)
(***************************************************************************)
EXTENDS Session, TLC, Json

CONSTANTS
  MAXSEALED,     \* bound on packets sealed
  MAXOPEN,       \* bound on calls made after the handshake
  ROLES2,        \* roles the second party may take
  MAGICS2,       \* magics the second party may use
  REFB,          \* may the second party be the reference peer?
  GARBS,         \* garbage lengths
  DECOYS,        \* decoy lists
  SLACKS,        \* buffer size offered, relative to the size required
  BULKS,         \* lengths of long packet runs
  SIZES,         \* packet contents sizes
  MUTS,          \* alterations
  HONEST,        \* TRUE: the handshake is undisturbed (generation of long behaviours)
  DEPTH          \* length of generated behaviours

DecoysSmall == { <<>>, <<0>> }
DecoysReal  == { <<>>, <<0>>, <<3, 1>> }

SlacksSmall == {-1, 0}
SlacksReal  == {-1, 0, 5}

VARIABLES s, h, calls, jumped
vars == <<s, h, calls, jumped>>

KeyNo(x) == IF x = "A" THEN 1 ELSE 2
STRANGER == 3     \* a valid key whose secret nobody in the model has
V1KEY == 4        \* bytes starting with the network magic
GidOf(x, g) == IF g = 0 THEN "e" ELSE "g" \o x \o ToString(g)

Base(op, x) == [op |-> op, x |-> x]

NewReqs(x) ==
  IF s.p[x].ph # "none" THEN {}
  ELSE { [op |-> "new", x |-> x, role |-> ro, magic |-> m, rng |-> KeyNo(x), fresh |-> KeyNo(x)] :
           ro \in IF HONEST /\ s.p[Other(x)].ph # "none" THEN {OtherRole(s.p[Other(x)].role)}
                   ELSE IF x = "A" THEN {"I", "R"} ELSE ROLES2, m \in IF x = "A" THEN {1} ELSE MAGICS2 }
       \cup (IF x = "B" /\ REFB
             THEN { [op |-> "refkey", x |-> x, role |-> ro, magic |-> m, key |-> KeyNo(x)] :
                      ro \in ROLES2, m \in MAGICS2 } ELSE {})

HsSlacks == IF HONEST THEN { k \in SLACKS : k >= 0 } ELSE SLACKS
SendKeyReqs(x) ==
  IF s.p[x].ph # "init" THEN {}
  ELSE { [op |-> "sendkey", x |-> x, g |-> g, gid |-> GidOf(x, g), slack |-> k,
          buf |-> Max(0, KEYLEN + g + k), fresh |-> KeyNo(x)] : g \in GARBS, k \in HsSlacks }

Started(x) == s.p[x].ph \notin {"none"} /\ s.p[x].key # 0
KeysSeen(x) == (IF Started(Other(x)) THEN {KeyNo(Other(x))} ELSE {}) \cup {KeyNo(x), STRANGER, V1KEY}

RecvKeyReqs(x) ==
  IF s.p[x].ph = "sentkey"
  THEN { [op |-> "recvkey", x |-> x, key |-> k, v1 |-> (k = V1KEY)] :
           k \in IF HONEST THEN KeysSeen(x) \ {KeyNo(x), STRANGER, V1KEY} ELSE KeysSeen(x) }
  ELSE IF s.p[x].ph = "ref" /\ s.p[x].sess = NoSess /\ Started(Other(x))
  THEN { [op |-> "refsess", x |-> x, key |-> KeyNo(Other(x))] }
  ELSE {}

SendVerReqs(x) ==
  IF s.p[x].ph # "recvkey" THEN {}
  ELSE { [op |-> "sendver", x |-> x, decoys |-> d, slack |-> k,
          buf |-> Max(0, VersionLen(d) + k)] : d \in DECOYS, k \in HsSlacks }

(* The reference peer may seal any packet, at a current or wrong position, *)
(* in its own or the other direction.                                      *)
RefSealReqs(x) ==
  IF s.p[x].ph # "ref" \/ s.p[x].sess = NoSess \/ Len(s.sealed) >= MAXSEALED THEN {}
  ELSE { [op |-> "refseal", x |-> x, d |-> d, pos |-> q, n |-> n, hdr |-> hd, aad |-> a] :
           d \in {s.p[x].role}, q \in {s.p[Other(x)].inPkt, s.p[Other(x)].inPkt + 1},
           n \in {0}, hd \in {0, 129}, a \in {"e", "gB1"} }

(* A terminator is on the wire only if the peer sent it in this session.   *)
TermSeen(x) ==
  LET y == Other(x) IN
  /\ s.p[y].sess = s.p[x].sess
  /\ s.p[y].role = OtherRole(s.p[x].role)
  /\ s.p[y].ph \in {"sentver", "garb", "done", "ref"}

GarbReqs(x) ==
  IF s.p[x].ph # "sentver" THEN {}
  ELSE IF HONEST
  THEN IF TermSeen(x)
       THEN { [op |-> "recvgarb", x |-> x, how |-> "right", n |-> s.p[Other(x)].glen + TERM,
               occ |-> s.p[Other(x)].glen, gid |-> s.p[Other(x)].gid] } ELSE {}
  ELSE { [op |-> "recvgarb", x |-> x, how |-> "partial", n |-> MAXGARB, occ |-> -1, gid |-> "?"],
         [op |-> "recvgarb", x |-> x, how |-> "absent", n |-> MAXGARB + TERM, occ |-> -1, gid |-> "?"] }
       \cup (IF TermSeen(x)
             THEN LET y == Other(x)  gl == s.p[y].glen IN
                  { [op |-> "recvgarb", x |-> x, how |-> "right", n |-> gl + TERM, occ |-> gl, gid |-> s.p[y].gid],
                    [op |-> "recvgarb", x |-> x, how |-> "longer", n |-> gl + 1 + TERM, occ |-> gl + 1, gid |-> "x"],
                    [op |-> "recvgarb", x |-> x, how |-> "late", n |-> MAXGARB + 1 + TERM, occ |-> MAXGARB + 1, gid |-> "x"] }
             ELSE {})

Srcs == 0..Len(s.sealed)
ClenOf(src, m) ==
  IF src = 0 THEN MinBody + 3
  ELSE LET b == BodyLen(s.sealed[src].n) IN
       CASE m = "trunc" -> b - 1 [] m = "short" -> MinBody - 1 [] m = "ext" -> b + 1 [] OTHER -> b

NextSrc(x) == { q \in 1..Len(s.sealed) : s.sealed[q].dir = InDir(s.p[x]) /\ s.sealed[q].pos = s.p[x].inPkt }
OpenReq(x, a, q, m, ad, k) ==
  [op |-> "open", x |-> x, api |-> a, src |-> q, mut |-> m, clen |-> ClenOf(q, m), aad |-> ad,
   slack |-> k, buf |-> Max(0, ClenOf(q, m) - TAG + k)]
OpenReqs(x) ==
  IF HONEST
  THEN { OpenReq(x, a, q, "none", ad, k) : a \in {"buf", "inplace", "vec"}, q \in NextSrc(x), ad \in {"e", "z"}, k \in SLACKS }
       \cup { OpenReq(x, a, q, m, "e", 0) : a \in {"buf", "inplace", "vec"}, q \in NextSrc(x), m \in MUTS }
       \cup { OpenReq(x, "buf", q, "none", ad, 0) : q \in { q \in Srcs : q = 0 \/ q >= Len(s.sealed) - 2 }, ad \in {"e", "z"} }
  ELSE { OpenReq(x, a, q, m, ad, k) :
           a \in {"buf", "inplace", "vec"}, q \in Srcs, m \in MUTS, ad \in {"e", "z"}, k \in SLACKS }
PktReqs(x) ==
  LET ph == s.p[x].ph IN
  IF ph = "garb" /\ HONEST
  THEN IF s.p[x].inLen = s.p[x].inPkt
       THEN { [op |-> "hslen", x |-> x, src |-> q, mut |-> "none"] : q \in NextSrc(x) }
       ELSE { [op |-> "recvver", x |-> x, src |-> q, mut |-> "none", clen |-> ClenOf(q, "none")] : q \in NextSrc(x) }
  ELSE IF ph = "garb"
  THEN { [op |-> "hslen", x |-> x, src |-> q, mut |-> "none"] : q \in IF s.p[x].inLen = s.p[x].inPkt THEN Srcs ELSE {} }
       \cup { [op |-> "recvver", x |-> x, src |-> q, mut |-> m, clen |-> ClenOf(q, m)] :
                q \in IF s.p[x].inLen > s.p[x].inPkt THEN Srcs ELSE {}, m \in MUTS }
  ELSE IF ph # "done" THEN {}
  ELSE { [op |-> "seal", x |-> x, api |-> a, n |-> n, ty |-> ty, aad |-> ad, slack |-> k,
          buf |-> Max(0, PacketLen(n) + k)] :
           a \in {"buf"}, n \in IF Len(s.sealed) >= MAXSEALED THEN {} ELSE SIZES, ty \in {"G", "D"},
           ad \in {"e", "z"}, k \in SLACKS }
       \cup { [op |-> "declen", x |-> x, src |-> q, mut |-> "none"] : q \in IF s.p[x].inLen = s.p[x].inPkt THEN Srcs ELSE {} }
       \cup OpenReqs(x)

InStep(x) ==
  LET y == Other(x) IN
  /\ s.p[x].ph = "done" /\ s.p[y].ph = "done"
  /\ s.p[x].sess = s.p[y].sess /\ s.p[x].role # s.p[y].role
  /\ s.p[x].outN = s.p[y].inPkt /\ s.p[x].outN = s.p[y].inLen

BulkReqs(x) ==
  IF ~InStep(x) THEN {}
  ELSE { [op |-> "bulk", x |-> x, n |-> n, seal |-> TRUE, open |-> TRUE] : n \in BULKS }

ReqsOf(x) == NewReqs(x) \cup SendKeyReqs(x) \cup RecvKeyReqs(x) \cup SendVerReqs(x) \cup RefSealReqs(x)
             \cup GarbReqs(x) \cup PktReqs(x) \cup BulkReqs(x)

PostHandshake(r) == r.op \in {"seal", "declen", "open", "bulk"}

Init == s = Init0 /\ h = <<>> /\ calls = 0 /\ jumped = FALSE

(* Named so that the Bug_Session configurations can put a wrong rule in the place of the right one; *)
(* Authentic, SessOf and VersionFacts are replaced there as well.                                     *)
After(t, r, o) == Post(t, r, o)

\* Wrong rules.
Present(t, x, src, mut) == mut = "none" /\ src > 0
AuthReflected(t, x, src, mut, aad) ==
  Present(t, x, src, mut) /\ LET k == t.sealed[src] IN k.dir \in {InDir(t.p[x]), OutDir(t.p[x])} /\ k.pos = t.p[x].inPkt /\ k.aad = aad
AuthAnyOrder(t, x, src, mut, aad) ==
  Present(t, x, src, mut) /\ LET k == t.sealed[src] IN k.dir = InDir(t.p[x]) /\ k.aad = aad
AuthNoAad(t, x, src, mut, aad) ==
  Present(t, x, src, mut) /\ LET k == t.sealed[src] IN k.dir = InDir(t.p[x]) /\ k.pos = t.p[x].inPkt
AuthSameKey(t, x, src, mut, aad) ==     \* the nonce ignores the packets before the last new key
  Present(t, x, src, mut) /\ LET k == t.sealed[src] IN k.dir = InDir(t.p[x]) /\ Off(k.pos) = Off(t.p[x].inPkt) /\ k.aad = aad
SessNoMagic(pp, theirKey) ==
  IF pp.role = "I" THEN <<pp.key, theirKey, 0>> ELSE <<theirKey, pp.key, 0>>
SessHalf(pp, theirKey) == IF pp.role = "I" THEN <<pp.key, 0, pp.magic>> ELSE <<theirKey, 0, pp.magic>>
\* A refused packet uses up a position.
AfterFailed(t, r, o) ==
  IF r.op = "open" /\ o.res # "ok" THEN [t EXCEPT !.p[r.x].inPkt = @ + 1] ELSE Post(t, r, o)
\* So does a refused seal.
AfterSmall(t, r, o) ==
  IF r.op = "seal" /\ o.res # "ok" THEN [t EXCEPT !.p[r.x].outN = @ + 1] ELSE Post(t, r, o)
\* Every accepted packet completes the handshake.
AfterDecoy(t, r, o) ==
  IF r.op = "recvver" /\ o.res = "decoy" THEN [Post(t, r, o) EXCEPT !.p[r.x].ph = "done"] ELSE Post(t, r, o)
\* A packet is sealed without moving on.
AfterStay(t, r, o) ==
  IF r.op = "seal" /\ o.res = "ok" THEN [Post(t, r, o) EXCEPT !.p[r.x].outN = @ - 1] ELSE Post(t, r, o)
\* Sealing resets what the peer's packets are opened with.
AfterCoupled(t, r, o) ==
  IF r.op = "seal" /\ o.res = "ok" THEN [Post(t, r, o) EXCEPT !.p[r.x].inLen = 0] ELSE Post(t, r, o)

Do(r) ==
  \E o \in Outcomes(s, r) :
    /\ s' = After(s, r, o)
    /\ h' = Append(h, r)
    /\ calls' = IF PostHandshake(r) THEN calls + 1 ELSE calls
    /\ jumped' = (jumped \/ r.op = "bulk")

Next ==
  \E x \in PARTIES : \E r \in ReqsOf(x) : (PostHandshake(r) => calls < MAXOPEN) /\ Enabled(s, r) /\ Do(r)

Spec == Init /\ [][Next]_vars

(* ---------------------------------------------------------------------- *)
(* Properties                                                              *)
(* ---------------------------------------------------------------------- *)

(* C02: the i-th accepted packet is the i-th packet sealed in the peer's   *)
(* direction of this very session.                                         *)
AcceptedPrefix ==
  \A x \in PARTIES :
    LET pp == s.p[x] IN
    ~jumped =>
      /\ Len(pp.rcv) = pp.inPkt
      /\ \A i \in 1..Len(pp.rcv) :
           LET k == s.sealed[pp.rcv[i]] IN k.dir = InDir(pp) /\ k.pos = i - 1

(* C03: a completed handshake saw the peer's very own flight: same session *)
(* (both keys and magic), opposite role, the garbage the peer sent.        *)
Complete(x) == s.p[x].ph = "done"
HandshakeAgreement ==
  \A x \in PARTIES : Complete(x) =>
    LET y == Other(x) IN
    /\ s.p[y].sess = s.p[x].sess
    /\ s.p[y].role # s.p[x].role
    /\ s.p[y].magic = s.p[x].magic
    /\ s.p[y].ph # "ref" => s.p[x].rgid = s.p[y].gid
    /\ s.p[x].first = FALSE

(* C03: an endpoint of a session nobody else is in never completes.        *)
NoStranger ==
  \A x \in PARTIES : Complete(x) =>
    s.p[x].sess[1] # STRANGER /\ s.p[x].sess[2] # STRANGER /\ s.p[x].sess[1] # s.p[x].sess[2]

(* C05: no key and nonce is used twice by the endpoints themselves.        *)
OwnSealed(k) == \E x \in PARTIES : s.p[x].ph # "ref" /\ s.p[x].sess # NoSess /\ k.dir = OutDir(s.p[x])
NonceUnique ==
  \A i, j \in 1..Len(s.sealed) :
    (i # j /\ OwnSealed(s.sealed[i]) /\ OwnSealed(s.sealed[j])) =>
      <<s.sealed[i].dir, At(s.sealed[i].pos)>> # <<s.sealed[j].dir, At(s.sealed[j].pos)>>

(* C13: a handshake completes on the first accepted non-decoy packet.      *)
DecoysBefore ==
  \A x \in PARTIES :
    LET pp == s.p[x]
        hsN == Cardinality({ i \in 1..Len(pp.rcv) : \A j \in 1..i : IsDecoy(s.sealed[pp.rcv[j]].hdr) })
    IN /\ (pp.ph = "garb" => hsN = Len(pp.rcv))
       /\ (pp.ph = "done" => hsN < Len(pp.rcv))

(* C06: garbage accepted is within bounds. *)
GarbageBound == \A x \in PARTIES : s.p[x].glen <= MAXGARB

(* C05, C09: sealing positions are consecutive, so nothing refused has     *)
(* consumed one.                                                           *)
Consecutive ==
  \A x \in PARTIES : s.p[x].ph # "ref" /\ ~jumped /\ s.p[x].sess # NoSess =>
    s.p[x].outN = Cardinality({ i \in 1..Len(s.sealed) : s.sealed[i].dir = OutDir(s.p[x]) })

(* C21: a step changes what one party has sent, or what it has received,   *)
(* never both, and never the other party (long runs move both in step).    *)
Independent ==
  [][ LET sent(t, x) == <<t.p[x].outN>>
          got(t, x) == <<t.p[x].inPkt, t.p[x].inLen, t.p[x].rcv>>
      IN \A x \in PARTIES :
           (sent(s, x) # sent(s', x) /\ jumped' = jumped) =>
              /\ got(s, x) = got(s', x)
              /\ s.p[Other(x)] = s'.p[Other(x)] ]_vars

(* C09: every state in which the peer is ahead allows progress: the        *)
(* corrected call succeeds whatever was refused before.                    *)
CanOpenNext ==
  \A x \in PARTIES : s.p[x].ph = "done" =>
    \A i \in 1..Len(s.sealed) :
      LET k == s.sealed[i] IN
      (k.dir = InDir(s.p[x]) /\ k.pos = s.p[x].inPkt) =>
        \E o \in Outcomes(s, [op |-> "open", x |-> x, api |-> "buf", src |-> i, mut |-> "none",
                              clen |-> BodyLen(k.n), aad |-> k.aad, buf |-> k.n + HDR]) : o.res = "ok"

Sound == /\ AcceptedPrefix /\ HandshakeAgreement /\ NoStranger /\ NonceUnique
         /\ DecoysBefore /\ GarbageBound /\ Consecutive /\ CanOpenNext

(* Vacuity guards: these must be violated (reachability of the goals).     *)
BothDone == \A x \in PARTIES : s.p[x].ph = "done"
NeverBothDone == ~BothDone
NeverExchanged == ~(BothDone /\ \A x \in PARTIES : Len(s.p[x].rcv) > 1)

View == <<s, calls, jumped>>

(* Generation.  A behaviour is printed once, when it has reached its length *)
(* or nothing more can happen.                                             *)
Reqs == { r \in UNION { ReqsOf(x) : x \in PARTIES } : (PostHandshake(r) => calls < MAXOPEN) /\ Enabled(s, r) }
GenNext ==
  IF Len(h) = DEPTH \/ Reqs = {}
  THEN /\ calls # 9999
       /\ PrintT("BEH " \o ToJson(h))
       /\ calls' = 9999 /\ UNCHANGED <<s, h, jumped>>
  ELSE \E r \in Reqs : Do(r)
GenSpec == Init /\ [][GenNext]_vars

(* One behaviour per transition of the state graph. *)
EmitEdge == PrintT("BEH " \o ToJson(h'))
=============================================================================
