------------------------------- MODULE Secrets -------------------------------
(***************************************************************************)
(* Freshness of the secrets.  Every connection shows a public key, a       *)
(* garbage terminator, the ciphertext of its version packet and a session  *)
(* id; none may ever repeat.  k says which of the four keys of the session *)
(* was found at work for length and contents, sent and received (0 where   *)
(* unknown), t the same for the terminators.  Connections made with a      *)
(* caller-supplied random source depend on that source alone.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

F0 == [ keys |-> {}, terms |-> {}, pkts |-> {}, sids |-> {}, src |-> {} ]

Rule(cond, why) == IF cond THEN {why} ELSE {}
Known(v) == { i \in 1..Len(v) : v[i] # 0 }
Repeats(v) == \E i, j \in Known(v) : i # j /\ v[i] = v[j]

ConnBad(s, e) ==
  UNION { Rule(e.key \in s.keys, "an ephemeral key is used twice"),
          Rule(e.term # "" /\ e.term \in s.terms, "a garbage terminator is used twice"),
          Rule(e.pkt # "" /\ e.pkt \in s.pkts, "a packet key is used twice"),
          Rule(e.sid # "" /\ e.sid \in s.sids, "a session id is used twice"),
          Rule(Repeats(e.k), "a session uses one key for two purposes"),
          Rule(Repeats(e.t), "a session uses one terminator for both directions") }
BulkBad(s, e) == Rule(e.distinct # e.n, "an ephemeral key is used twice")

(* e.src identifies the bytes of the source, e.valid whether they are a secret key. *)
SrcBad(s, e) ==
  UNION { Rule(~e.valid /\ e.res # "SecretGeneration", "an invalid secret is not reported"),
          Rule(e.valid /\ e.res # "ok", "a valid secret is refused"),
          Rule(e.valid /\ e.res = "ok" /\ \E p \in s.src : p[1] = e.src /\ p[2] # e.key,
               "the key depends on more than the source"),
          Rule(e.valid /\ e.res = "ok" /\ \E p \in s.src : p[1] # e.src /\ p[2] = e.key,
               "different sources give the same key") }

SecBad(s, e) ==
  CASE e.op = "conn" -> ConnBad(s, e)
    [] e.op = "bulk" -> BulkBad(s, e)
    [] e.op = "src" -> SrcBad(s, e)
    [] e.op = "fail" -> {"a handshake could not be started"}
    [] OTHER -> {}
Put(S, x) == IF x = "" THEN S ELSE S \union {x}
SecNext(s, e) ==
  CASE e.op = "conn" -> [s EXCEPT !.keys = @ \union {e.key}, !.terms = Put(@, e.term), !.pkts = Put(@, e.pkt),
                                  !.sids = Put(@, e.sid)]
    [] e.op = "src" -> IF e.res = "ok" THEN [s EXCEPT !.src = @ \union {<<e.src, e.key>>}] ELSE s
    [] OTHER -> s
=============================================================================
