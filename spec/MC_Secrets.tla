----------------------------- MODULE MC_Secrets -----------------------------
(***************************************************************************)
(* Where ephemeral keys come from.                                         *)
(* SRC = "os": every handshake asks the system.                            *)
(*     = "block": every thread has a generator seeded by the system when   *)
(*       first used, making BLOCK outputs at a time; a fork copies it and  *)
(*       it notices the fork when it makes its next block.                 *)
(*     = "fork": the same without noticing.                                *)
(*     = "shared": threads start from a seed of their process.             *)
(*     = "first": the same generator noticing forks before every output.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MAXT, MAXH, SRC, BLOCK, RECORD
VARIABLES gen,    \* thread -> [seed, n, stale], seed 0: not seeded
          proc,   \* thread -> process
          pseed,  \* process -> seed
          next,   \* the system's next output
          used,   \* secrets taken, in order
          nproc,
          hist    \* what happened, for replaying (RECORD)
vars == <<gen, proc, pseed, next, used, nproc, hist>>
Did(op, t) == hist' = IF RECORD THEN Append(hist, <<op, t>>) ELSE hist
Init == /\ gen = <<[seed |-> 0, n |-> 0, stale |-> FALSE]>> /\ proc = <<1>> /\ nproc = 1
        /\ pseed = <<1>> /\ next = 2 /\ used = <<>> /\ hist = <<>>
Spawn == /\ Len(gen) < MAXT /\ Len(used) < MAXH
         /\ \E t \in 1..Len(gen) :
              /\ gen' = Append(gen, [seed |-> IF SRC = "shared" THEN pseed[proc[t]] ELSE 0, n |-> 0, stale |-> FALSE])
              /\ proc' = Append(proc, proc[t]) /\ Did("spawn", t)
         /\ UNCHANGED <<pseed, next, used, nproc>>
(* only the forking thread exists in the child *)
Fork == /\ Len(gen) < MAXT /\ Len(used) < MAXH
        /\ \E t \in 1..Len(gen) :
             /\ gen' = Append([u \in 1..Len(gen) |-> IF proc[u] = proc[t] THEN [gen[u] EXCEPT !.stale = TRUE] ELSE gen[u]],
                              [gen[t] EXCEPT !.stale = TRUE])
             /\ proc' = Append(proc, nproc + 1) /\ nproc' = nproc + 1 /\ Did("fork", t)
             /\ pseed' = Append(pseed, pseed[proc[t]])
        /\ UNCHANGED <<next, used>>
System == /\ used' = Append(used, <<next, 0>>) /\ next' = next + 1 /\ UNCHANGED <<gen, proc, pseed, nproc>>
Notices(g) == CASE SRC = "block" -> g.stale /\ g.n % BLOCK = 0
                [] SRC = "first" -> g.stale
                [] OTHER -> FALSE
Thread(t) ==
  LET g == gen[t]
      fresh == g.seed = 0 \/ Notices(g)
      h == IF fresh THEN [seed |-> next, n |-> 0, stale |-> FALSE] ELSE g IN
  /\ used' = Append(used, <<h.seed, h.n>>)
  /\ gen' = [gen EXCEPT ![t] = [h EXCEPT !.n = @ + 1]]
  /\ next' = IF fresh THEN next + 1 ELSE next
  /\ UNCHANGED <<proc, pseed, nproc>>
Handshake(t) == Len(used) < MAXH /\ Did("hs", t) /\ IF SRC = "os" THEN System ELSE Thread(t)
Next == Spawn \/ Fork \/ \E t \in 1..Len(gen) : Handshake(t)
Spec == Init /\ [][Next]_vars
Fresh == \A i, j \in 1..Len(used) : i # j => used[i] # used[j]
GenInv == (RECORD /\ Len(used) = MAXH) => PrintT("BEH " \o ToJson(hist))
=============================================================================
