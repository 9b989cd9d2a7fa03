---- MODULE MC_Shaper_TTrace_1795062747 ----
EXTENDS Sequences, TLCExt, Toolbox, MC_Shaper, Naturals, TLC

_expression ==
    LET MC_Shaper_TEExpression == INSTANCE MC_Shaper_TEExpression
    IN MC_Shaper_TEExpression!expression
----

_trace ==
    LET MC_Shaper_TETrace == INSTANCE MC_Shaper_TETrace
    IN MC_Shaper_TETrace!trace
----

_inv ==
    ~(
        TLCGet("level") = Len(_TETrace)
        /\
        res = (<<"none", "none", "none">>)
        /\
        shut = (FALSE)
        /\
        bad = ({<<<<"C15", "C16", "C17", "C21">>, "the transport is released while the writer is in use">>})
        /\
        ticks = (0)
        /\
        failat = (0)
        /\
        failed = (FALSE)
        /\
        m = ([torn |-> FALSE, iface |-> "async", pad |-> FALSE, dec |-> FALSE, ph |-> "open", calls |-> <<>>, dropped |-> FALSE, rgone |-> TRUE, nG |-> 0, nD |-> 0, readN |-> 0, released |-> TRUE, lo |-> 0, alone |-> FALSE, reported |-> FALSE])
        /\
        derr = (FALSE)
        /\
        call = (<<"no", "no", "no">>)
        /\
        q = (<<>>)
        /\
        hist = (<<>>)
        /\
        u = ([pc |-> "idle", cur |-> 0, part |-> 0])
        /\
        w = ([pc |-> "done", cur |-> 0, part |-> 0])
        /\
        lock = ("free")
        /\
        inb = (0)
    )
----

_init ==
    /\ bad = _TETrace[1].bad
    /\ derr = _TETrace[1].derr
    /\ m = _TETrace[1].m
    /\ q = _TETrace[1].q
    /\ u = _TETrace[1].u
    /\ w = _TETrace[1].w
    /\ ticks = _TETrace[1].ticks
    /\ lock = _TETrace[1].lock
    /\ failat = _TETrace[1].failat
    /\ res = _TETrace[1].res
    /\ hist = _TETrace[1].hist
    /\ inb = _TETrace[1].inb
    /\ failed = _TETrace[1].failed
    /\ shut = _TETrace[1].shut
    /\ call = _TETrace[1].call
----

_next ==
    /\ \E i,j \in DOMAIN _TETrace:
        /\ \/ /\ j = i + 1
              /\ i = TLCGet("level")
        /\ bad  = _TETrace[i].bad
        /\ bad' = _TETrace[j].bad
        /\ derr  = _TETrace[i].derr
        /\ derr' = _TETrace[j].derr
        /\ m  = _TETrace[i].m
        /\ m' = _TETrace[j].m
        /\ q  = _TETrace[i].q
        /\ q' = _TETrace[j].q
        /\ u  = _TETrace[i].u
        /\ u' = _TETrace[j].u
        /\ w  = _TETrace[i].w
        /\ w' = _TETrace[j].w
        /\ ticks  = _TETrace[i].ticks
        /\ ticks' = _TETrace[j].ticks
        /\ lock  = _TETrace[i].lock
        /\ lock' = _TETrace[j].lock
        /\ failat  = _TETrace[i].failat
        /\ failat' = _TETrace[j].failat
        /\ res  = _TETrace[i].res
        /\ res' = _TETrace[j].res
        /\ hist  = _TETrace[i].hist
        /\ hist' = _TETrace[j].hist
        /\ inb  = _TETrace[i].inb
        /\ inb' = _TETrace[j].inb
        /\ failed  = _TETrace[i].failed
        /\ failed' = _TETrace[j].failed
        /\ shut  = _TETrace[i].shut
        /\ shut' = _TETrace[j].shut
        /\ call  = _TETrace[i].call
        /\ call' = _TETrace[j].call

\* Uncomment the ASSUME below to write the states of the error trace
\* to the given file in Json format. Note that you can pass any tuple
\* to `JsonSerialize`. For example, a sub-sequence of _TETrace.
    \* ASSUME
    \*     LET J == INSTANCE Json
    \*         IN J!JsonSerialize("MC_Shaper_TTrace_1795062747.json", _TETrace)

=============================================================================

 Note that you can extract this module `MC_Shaper_TEExpression`
  to a dedicated file to reuse `expression` (the module in the 
  dedicated `MC_Shaper_TEExpression.tla` file takes precedence 
  over the module `MC_Shaper_TEExpression` below).

---- MODULE MC_Shaper_TEExpression ----
EXTENDS Sequences, TLCExt, Toolbox, MC_Shaper, Naturals, TLC

expression == 
    [
        \* To hide variables of the `MC_Shaper` spec from the error trace,
        \* remove the variables below.  The trace will be written in the order
        \* of the fields of this record.
        bad |-> bad
        ,derr |-> derr
        ,m |-> m
        ,q |-> q
        ,u |-> u
        ,w |-> w
        ,ticks |-> ticks
        ,lock |-> lock
        ,failat |-> failat
        ,res |-> res
        ,hist |-> hist
        ,inb |-> inb
        ,failed |-> failed
        ,shut |-> shut
        ,call |-> call
        
        \* Put additional constant-, state-, and action-level expressions here:
        \* ,_stateNumber |-> _TEPosition
        \* ,_badUnchanged |-> bad = bad'
        
        \* Format the `bad` variable as Json value.
        \* ,_badJson |->
        \*     LET J == INSTANCE Json
        \*     IN J!ToJson(bad)
        
        \* Lastly, you may build expressions over arbitrary sets of states by
        \* leveraging the _TETrace operator.  For example, this is how to
        \* count the number of times a spec variable changed up to the current
        \* state in the trace.
        \* ,_badModCount |->
        \*     LET F[s \in DOMAIN _TETrace] ==
        \*         IF s = 1 THEN 0
        \*         ELSE IF _TETrace[s].bad # _TETrace[s-1].bad
        \*             THEN 1 + F[s-1] ELSE F[s-1]
        \*     IN F[_TEPosition - 1]
    ]

=============================================================================



Parsing and semantic processing can take forever if the trace below is long.
 In this case, it is advised to uncomment the module below to deserialize the
 trace from a generated binary file.

\*
\*---- MODULE MC_Shaper_TETrace ----
\*EXTENDS IOUtils, MC_Shaper, TLC
\*
\*trace == IODeserialize("MC_Shaper_TTrace_1795062747.bin", TRUE)
\*
\*=============================================================================
\*

---- MODULE MC_Shaper_TETrace ----
EXTENDS MC_Shaper, TLC

trace == 
    <<
    ([res |-> <<"none", "none", "none">>,shut |-> FALSE,bad |-> {},ticks |-> 0,failat |-> 0,failed |-> FALSE,m |-> [torn |-> FALSE, iface |-> "async", pad |-> FALSE, dec |-> FALSE, ph |-> "open", calls |-> <<>>, dropped |-> FALSE, rgone |-> FALSE, nG |-> 0, nD |-> 0, readN |-> 0, released |-> FALSE, lo |-> 0, alone |-> FALSE, reported |-> FALSE],derr |-> FALSE,call |-> <<"no", "no", "no">>,q |-> <<>>,hist |-> <<>>,u |-> [pc |-> "idle", cur |-> 0, part |-> 0],w |-> [pc |-> "idle", cur |-> 0, part |-> 0],lock |-> "free",inb |-> 0]),
    ([res |-> <<"none", "none", "none">>,shut |-> FALSE,bad |-> {},ticks |-> 0,failat |-> 0,failed |-> FALSE,m |-> [torn |-> FALSE, iface |-> "async", pad |-> FALSE, dec |-> FALSE, ph |-> "open", calls |-> <<>>, dropped |-> FALSE, rgone |-> TRUE, nG |-> 0, nD |-> 0, readN |-> 0, released |-> FALSE, lo |-> 0, alone |-> FALSE, reported |-> FALSE],derr |-> FALSE,call |-> <<"no", "no", "no">>,q |-> <<>>,hist |-> <<>>,u |-> [pc |-> "idle", cur |-> 0, part |-> 0],w |-> [pc |-> "idle", cur |-> 0, part |-> 0],lock |-> "free",inb |-> 0]),
    ([res |-> <<"none", "none", "none">>,shut |-> FALSE,bad |-> {<<<<"C15", "C16", "C17", "C21">>, "the transport is released while the writer is in use">>},ticks |-> 0,failat |-> 0,failed |-> FALSE,m |-> [torn |-> FALSE, iface |-> "async", pad |-> FALSE, dec |-> FALSE, ph |-> "open", calls |-> <<>>, dropped |-> FALSE, rgone |-> TRUE, nG |-> 0, nD |-> 0, readN |-> 0, released |-> TRUE, lo |-> 0, alone |-> FALSE, reported |-> FALSE],derr |-> FALSE,call |-> <<"no", "no", "no">>,q |-> <<>>,hist |-> <<>>,u |-> [pc |-> "idle", cur |-> 0, part |-> 0],w |-> [pc |-> "done", cur |-> 0, part |-> 0],lock |-> "free",inb |-> 0])
    >>
----


=============================================================================

---- CONFIG MC_Shaper_TTrace_1795062747 ----
CONSTANTS
    MAXDECOY = 1
    MAXHSDECOYS = 3
    MAXGARB = 4095
    IDLEMS = 20000
    N = 3
    TICKS = 2
    MINCALLS = 0
    BUG = "readergone"
    RECORD = FALSE

INVARIANT
    _inv

CHECK_DEADLOCK
    \* CHECK_DEADLOCK off because of PROPERTY or INVARIANT above.
    FALSE

INIT
    _init

NEXT
    _next

CONSTANT
    _TETrace <- _trace

ALIAS
    _expression
=============================================================================
\* Generated on Thu Nov 19 04:32:28 UTC 2026