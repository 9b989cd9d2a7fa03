------------------------------- MODULE Shaper -------------------------------
(***************************************************************************)
(* The traffic shaping layer: a writer that hands genuine packets to a     *)
(* background worker (asynchronous) or shares a locked writer with it      *)
(* (blocking), while the worker adds padding and decoys.                   *)
(*                                                                         *)
(* The contract is a monitor over observable events: calls and their       *)
(* returns, packets that appear on the wire, failures of the transport,    *)
(* dropping the writer, release of the transport.  ShNext(s, e) is the     *)
(* state after an event and ShBad(s, e) the rules it breaks, each with the *)
(* properties the rule belongs to.                                         *)
(* MC_Shaper checks the algorithms against it, Trace_Shaper the real code. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS MAXDECOY,   \* largest decoy (1024)
          MAXHSDECOYS,\* most decoys in the handshake (3)
          MAXGARB,    \* longest garbage (4095)
          IDLEMS      \* an idle span in which a decoy is certain (for all practical purposes)

S0 == [ iface |-> "sync", pad |-> FALSE, dec |-> FALSE, ph |-> "none",
        calls |-> <<>>,     \* [st: out/ok/err/can, sent]
        lo |-> 0,           \* so many of the first calls are sent (follows from calls)
        nG |-> 0, nD |-> 0,
        torn |-> FALSE,     \* the transport failed in or before a packet
        alone |-> FALSE,    \* ... while no caller waited for anything
        reported |-> FALSE, \* a caller was told
        dropped |-> FALSE, released |-> FALSE,
        rgone |-> FALSE,    \* the reading half has been dropped or has failed, the writing half has not
        readN |-> 0 ]

Unsent(s) == { k \in (s.lo + 1)..Len(s.calls) : ~s.calls[k].sent }
RECURSIVE Low(_, _)
Low(c, n) == IF n < Len(c) /\ c[n + 1].sent THEN Low(c, n + 1) ELSE n
Tidy(s) == [s EXCEPT !.lo = Low(s.calls, @)]
First(S) == CHOOSE k \in S : \A j \in S : k <= j
Padding(s) == s.pad /\ ~s.dec

Rule(cond, props, why) == IF cond THEN {<<props, why>>} ELSE {}
\* One half has come to an end: the other must not notice.
ByItself(props, alone) == IF alone THEN Append(props, "C21") ELSE props
A == <<"C15">>
B == <<"C16">>
L == <<"C15", "C01">>  \* packets between honest peers

(* One or several handshakes: the longest garbage, the most decoys, the smallest and largest decoy. *)
HsBad(s, e) ==
  IF e.res # "ok" THEN Rule(~e.fails, <<"C15", "C16", "C01">>, "handshake with an honest peer fails")
  ELSE UNION {
    Rule(~e.wellformed, <<"C15", "C16", "C04">>, "handshake bytes"),
    Rule(~s.pad /\ e.g # 0, B, "garbage although padding is disabled"),
    Rule(e.g > MAXGARB, B, "garbage too long"),
    Rule(~s.dec /\ e.nd # 0, B, "handshake decoys although decoys are disabled"),
    Rule(s.dec /\ e.nd > MAXHSDECOYS, B, "too many handshake decoys"),
    Rule(s.dec /\ e.nd > 0 /\ (e.min < 1 \/ e.max > MAXDECOY), B, "handshake decoy out of bounds") }

(* A run of e.cnt decoys, or one packet of a caller. *)
PktBad(s, e) ==
  Rule(s.released, <<"C17">>, "written after the transport was released") \union
  CASE e.ty = "D" -> UNION {
         Rule(~s.pad /\ ~s.dec, B, "decoy although everything is disabled"),
         Rule(e.min < 1 \/ e.max > MAXDECOY, B, "decoy out of bounds"),
         Rule(Padding(s) /\ s.nD + e.cnt - s.nG > 1, B, "more than one padding decoy per genuine packet"),
         Rule(Padding(s) /\ Unsent(s) = {} /\ s.nD + e.cnt > s.nG, B, "background decoy although decoys are disabled") }
    [] e.ty = "G" -> UNION {
         Rule(Unsent(s) = {}, L, "packet nobody wrote, or twice"),
         Rule(Unsent(s) # {} /\ (e.id # First(Unsent(s)) \/ ~e.same), L, "packets lost, altered or out of order"),
         Rule(~e.mark, <<"C15", "C13">>, "genuine packet marked as a decoy, or the other way round"),
         Rule(s.pad /\ s.nG + 1 - s.nD > 1, B, "genuine packet without padding") }
    [] OTHER -> Rule(TRUE, <<"C15", "C04">>, "not a well-formed packet")

MarkSent(s, k) == IF k \in 1..Len(s.calls) THEN Tidy([s EXCEPT !.calls[k].sent = TRUE]) ELSE s

PktNext(s, e) ==
  CASE e.ty = "D" -> [s EXCEPT !.nD = @ + e.cnt]
    [] e.ty = "G" -> [MarkSent(s, e.id) EXCEPT !.nG = @ + 1]
    [] OTHER -> s

RetBad(s, e) ==
  LET c == s.calls[e.id] IN
  CASE e.res = "ok" -> UNION {
         Rule(~c.sent /\ ~s.reported, <<"C18", "C15", "C14">>, "success reported before the packet was handed to the transport"),
         Rule(c.sent /\ ~e.flushed /\ ~s.torn, <<"C18", "C15", "C14">>, "success reported before the packet was flushed"),
         Rule(s.pad /\ ~s.torn /\ s.nD < s.nG, B, "genuine packet without padding") }
    [] e.res \in {"hang", "panic"} -> Rule(TRUE, ByItself(<<"C18", "C15">>, s.rgone), e.res)
    [] e.res = "PacketTooBig" -> Rule(~e.big, A, "refused")
    [] OTHER -> Rule(~s.torn, ByItself(A, s.rgone), "failure reported on a working transport")

RetNext(s, e) ==
  LET k == e.id IN
  CASE e.res = "ok" -> [s EXCEPT !.calls[k].st = "ok"]
    [] e.res = "PacketTooBig" -> Tidy([s EXCEPT !.calls[k].st = "err", !.calls[k].sent = TRUE,
                                                !.nG = IF Padding(s) THEN s.nD ELSE @])
    [] OTHER -> [s EXCEPT !.calls[k].st = "err", !.reported = TRUE]

ReleasedBad(s, e) ==
  UNION { Rule(~e.res, <<"C17">>, "the transport is not released"),
          Rule(e.res /\ ~s.dropped /\ ~s.torn, ByItself(<<"C15", "C16", "C17">>, s.rgone), "the transport is released while the writer is in use"),
          Rule(e.res /\ ~s.torn /\ Unsent(s) # {}, <<"C17", "C15">>, "an accepted write was not completed") }

IdleBad(s, e) ==
  UNION { Rule(~s.dec /\ ~s.pad /\ e.n > 0, B, "background decoys although decoys are disabled"),
          Rule(s.dec /\ ~s.torn /\ ~s.dropped /\ ~e.gated /\ e.ms >= IDLEMS /\ e.n = 0, ByItself(B, s.rgone), "no decoy on an idle connection") }

EndBad(s, e) ==
  UNION { Rule(e.panics > 0, IF s.torn THEN <<"C18">> ELSE <<"C17", "C15">>, "panic in the background"),
          Rule(~s.torn /\ e.trailing > 0, <<"C15", "C17">>, "the stream ends inside a packet"),
          Rule(s.released /\ e.after > 0, <<"C17">>, "bytes written after the release") }

ReadBad(s, e) ==
  CASE e.res = "ok" -> UNION {
         Rule(e.idx # s.readN + 1 \/ ~e.same, ByItself(<<"C15", "C01", "C08">>, s.dropped \/ s.torn \/ e.stuck), "the shaped reader returns something else"),
         Rule(~e.mark, <<"C15", "C13">>, "genuine packet read as a decoy, or the other way round") }
    [] e.res \in {"cancelled", "pending"} -> {}
    [] OTHER -> Rule(e.left > 0 \/ e.res \in {"hang", "panic"}, ByItself(<<"C15", "C01", "C08">>, s.dropped \/ s.torn \/ e.stuck), "the shaped reader fails")

ShBad(s, e) ==
  CASE e.op = "hs" -> HsBad(s, e)
    [] e.op = "pkt" -> PktBad(s, e)
    [] e.op = "ret" -> RetBad(s, e)
    [] e.op = "read" -> ReadBad(s, e)
    [] e.op = "drop" -> Rule(e.res # "ok", <<"C17">>, "dropping the writer never returns")
    [] e.op = "released" -> ReleasedBad(s, e)
    [] e.op = "idle" -> IdleBad(s, e)
    [] e.op = "more" -> Rule(s.alone /\ ~s.reported, <<"C18">>, "written on after a failure nobody was told of")
    [] e.op = "end" -> EndBad(s, e)
    [] OTHER -> {}

ShNext(s, e) ==
  CASE e.op = "shape" -> [S0 EXCEPT !.iface = e.iface, !.pad = e.pad, !.dec = e.dec, !.ph = "hs"]
    [] e.op = "hs" -> [s EXCEPT !.ph = IF e.res = "ok" THEN "open" ELSE "failed", !.torn = @ \/ e.res # "ok"]
    [] e.op = "call" -> [s EXCEPT !.calls = Append(@, [st |-> "out", sent |-> FALSE])]
    [] e.op = "pkt" -> PktNext(s, e)
    [] e.op = "ret" -> RetNext(s, e)
    [] e.op = "cancel" -> [s EXCEPT !.calls[e.id].st = "can"]
    [] e.op = "torn" -> [s EXCEPT !.torn = TRUE, !.alone = \A k \in 1..Len(s.calls) : s.calls[k].st # "out"]
    [] e.op = "read" -> IF e.res = "ok" THEN [s EXCEPT !.readN = @ + 1] ELSE s
    [] e.op = "rgone" -> [s EXCEPT !.rgone = TRUE]
    [] e.op = "drop" -> [s EXCEPT !.dropped = TRUE]
    [] e.op = "released" -> [s EXCEPT !.released = e.res]
    [] OTHER -> s
=============================================================================
