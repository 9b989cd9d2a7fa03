------------------------------ MODULE MC_Stats ------------------------------
(***************************************************************************)
(* The tracker, one atomic access at a time: threads add to the counters   *)
(* and then store the time, while an observer loads two counters.          *)
(* SPLIT = TRUE breaks the addition into a load and a store.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS P, OPS, SPLIT
VARIABLES rd, wr, last, now, pc, loc, done, begun, todo, obs
vars == <<rd, wr, last, now, pc, loc, done, begun, todo, obs>>
Kinds == {"r", "w"}
Sizes == {0, 1, 3}
Init == /\ rd = 0 /\ wr = 0 /\ last = 0 /\ now = 0
        /\ pc = [p \in 1..P |-> "idle"] /\ loc = [p \in 1..P |-> [k |-> "r", n |-> 0, v |-> 0, t |-> 0]]
        /\ done = [r |-> 0, w |-> 0] /\ begun = [r |-> 0, w |-> 0]
        /\ todo = [p \in 1..P |-> OPS]
        /\ obs = [st |-> "idle", lo |-> done, hi |-> done, r |-> 0, w |-> 0]
Counter(k) == IF k = "r" THEN rd ELSE wr
Set(k, v) == IF k = "r" THEN rd' = v /\ UNCHANGED wr ELSE wr' = v /\ UNCHANGED rd
Begin(p) == /\ pc[p] = "idle" /\ todo[p] > 0
            /\ \E k \in Kinds, n \in Sizes :
                 /\ loc' = [loc EXCEPT ![p] = [k |-> k, n |-> n, v |-> 0, t |-> 0]]
                 /\ begun' = [begun EXCEPT ![k] = @ + n]
            /\ pc' = [pc EXCEPT ![p] = "add"] /\ todo' = [todo EXCEPT ![p] = @ - 1]
            /\ UNCHANGED <<rd, wr, last, now, done, obs>>
Add(p) == /\ pc[p] = "add"
          /\ IF SPLIT THEN /\ loc' = [loc EXCEPT ![p].v = Counter(loc[p].k)] /\ pc' = [pc EXCEPT ![p] = "put"]
                           /\ UNCHANGED <<rd, wr>>
             ELSE Set(loc[p].k, Counter(loc[p].k) + loc[p].n) /\ pc' = [pc EXCEPT ![p] = "clock"] /\ UNCHANGED loc
          /\ UNCHANGED <<last, now, done, begun, todo, obs>>
Put(p) == /\ pc[p] = "put" /\ Set(loc[p].k, loc[p].v + loc[p].n) /\ pc' = [pc EXCEPT ![p] = "clock"]
          /\ UNCHANGED <<loc, last, now, done, begun, todo, obs>>
Clock(p) == /\ pc[p] = "clock" /\ loc' = [loc EXCEPT ![p].t = now] /\ pc' = [pc EXCEPT ![p] = "store"]
            /\ UNCHANGED <<rd, wr, last, now, done, begun, todo, obs>>
Store(p) == /\ pc[p] = "store" /\ last' = loc[p].t /\ pc' = [pc EXCEPT ![p] = "idle"]
            /\ done' = [done EXCEPT ![loc[p].k] = @ + loc[p].n]
            /\ UNCHANGED <<rd, wr, now, loc, begun, todo, obs>>
Tick == now < 2 /\ now' = now + 1 /\ UNCHANGED <<rd, wr, last, pc, loc, done, begun, todo, obs>>
Obs1 == obs.st = "idle" /\ obs' = [obs EXCEPT !.st = "mid", !.lo = done, !.r = rd]
        /\ UNCHANGED <<rd, wr, last, now, pc, loc, done, begun, todo>>
Obs2 == obs.st = "mid" /\ obs' = [obs EXCEPT !.st = "done", !.hi = begun, !.w = wr]
        /\ UNCHANGED <<rd, wr, last, now, pc, loc, done, begun, todo>>
Again == obs.st = "done" /\ obs' = [obs EXCEPT !.st = "idle", !.r = 0, !.w = 0, !.lo = done, !.hi = done]
        /\ UNCHANGED <<rd, wr, last, now, pc, loc, done, begun, todo>>
Next == Tick \/ Obs1 \/ Obs2 \/ Again \/ \E p \in 1..P : Begin(p) \/ Add(p) \/ Put(p) \/ Clock(p) \/ Store(p)
Spec == Init /\ [][Next]_vars
Quiet == \A p \in 1..P : pc[p] = "idle"
(* nothing is lost once everybody has returned *)
Exact == Quiet => rd = done.r /\ wr = done.w /\ done = begun
(* and an observer sees what is between the returned and the begun *)
Within == obs.st = "done" => obs.r >= obs.lo.r /\ obs.r <= obs.hi.r /\ obs.w >= obs.lo.w /\ obs.w <= obs.hi.w
Young == last <= now
=============================================================================
