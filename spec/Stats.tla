-------------------------------- MODULE Stats --------------------------------
(***************************************************************************)
(* The traffic statistics: what a tracker may answer, given the records    *)
(* that have returned and those still being made.                          *)
(* Totals are naturals in limbs of 24 bits (lowest first), TLC's integers  *)
(* have 32.  Times are milliseconds.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences

LIMB == 16777216
Norm(a, b, c) == LET x == a IN LET y == b + x \div LIMB IN LET z == c + y \div LIMB IN
                 <<x % LIMB, y % LIMB, z>>
Plus(s, t) == Norm(s[1] + t[1], s[2] + t[2], s[3] + t[3])
Zero == <<0, 0, 0>>

T0 == [ r |-> Zero, w |-> Zero, fresh |-> TRUE ]

Rule(cond, why) == IF cond THEN {why} ELSE {}

(* Nobody is recording: the ratio is that of the totals, absent exactly if nothing was read. *)
QuiescentBad(s, e) ==
  UNION { Rule(e.r # s.r \/ e.w # s.w, "totals of the harness and the specification"),
          Rule(s.r = Zero /\ e.some, "a ratio although nothing was read"),
          Rule(s.r # Zero /\ ~e.some, "no ratio although something was read"),
          Rule(s.r # Zero /\ e.some /\ ~e.eq, "records lost or counted twice") }
(* Somebody is: between what had returned before and what had begun after. *)
RacyBad(s, e) ==
  UNION { Rule(e.rlo # Zero /\ ~e.some, "no ratio although something was read"),
          Rule(e.rhi = Zero /\ e.some, "a ratio although nothing was read"),
          Rule(e.some /\ ~e.within, "ratio outside of what was recorded") }
(* e.lo and e.hi bound the true time since the last record (or creation), e.age the age. *)
TimeBad(s, e) ==
  UNION { Rule(e.ms > e.age, "more time than the tracker is old"),
          Rule(e.quiet /\ e.ms > e.hi, "more time than since the last record"),
          Rule(e.quiet /\ e.ms < e.lo, "less time than since the last record") }

StBad(s, e) ==
  CASE e.op = "ratio" -> QuiescentBad(s, e)
    [] e.op = "racy" -> RacyBad(s, e)
    [] e.op = "since" -> TimeBad(s, e)
    [] e.op = "panic" -> {"panic"}
    [] OTHER -> {}
StNext(s, e) ==
  CASE e.op = "new" -> T0
    [] e.op = "rec" -> IF e.kind = "r" THEN [s EXCEPT !.r = Plus(@, e.n), !.fresh = FALSE]
                       ELSE [s EXCEPT !.w = Plus(@, e.n), !.fresh = FALSE]
    [] OTHER -> s
=============================================================================
