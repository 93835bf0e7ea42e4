---- MODULE Output_TTrace_1795021009 ----
EXTENDS Sequences, TLCExt, Toolbox, Output, Naturals, TLC

_expression ==
    LET Output_TEExpression == INSTANCE Output_TEExpression
    IN Output_TEExpression!expression
----

_trace ==
    LET Output_TETrace == INSTANCE Output_TETrace
    IN Output_TETrace!trace
----

_inv ==
    ~(
        TLCGet("level") = Len(_TETrace)
        /\
        lost = (TRUE)
        /\
        ended = (TRUE)
        /\
        lens = (<<1>>)
        /\
        sent = (<<>>)
        /\
        room = (0)
        /\
        n = (2)
        /\
        status = (0)
    )
----

_init ==
    /\ room = _TETrace[1].room
    /\ ended = _TETrace[1].ended
    /\ n = _TETrace[1].n
    /\ status = _TETrace[1].status
    /\ sent = _TETrace[1].sent
    /\ lens = _TETrace[1].lens
    /\ lost = _TETrace[1].lost
----

_next ==
    /\ \E i,j \in DOMAIN _TETrace:
        /\ \/ /\ j = i + 1
              /\ i = TLCGet("level")
        /\ room  = _TETrace[i].room
        /\ room' = _TETrace[j].room
        /\ ended  = _TETrace[i].ended
        /\ ended' = _TETrace[j].ended
        /\ n  = _TETrace[i].n
        /\ n' = _TETrace[j].n
        /\ status  = _TETrace[i].status
        /\ status' = _TETrace[j].status
        /\ sent  = _TETrace[i].sent
        /\ sent' = _TETrace[j].sent
        /\ lens  = _TETrace[i].lens
        /\ lens' = _TETrace[j].lens
        /\ lost  = _TETrace[i].lost
        /\ lost' = _TETrace[j].lost

\* Uncomment the ASSUME below to write the states of the error trace
\* to the given file in Json format. Note that you can pass any tuple
\* to `JsonSerialize`. For example, a sub-sequence of _TETrace.
    \* ASSUME
    \*     LET J == INSTANCE Json
    \*         IN J!JsonSerialize("Output_TTrace_1795021009.json", _TETrace)

=============================================================================

 Note that you can extract this module `Output_TEExpression`
  to a dedicated file to reuse `expression` (the module in the 
  dedicated `Output_TEExpression.tla` file takes precedence 
  over the module `Output_TEExpression` below).

---- MODULE Output_TEExpression ----
EXTENDS Sequences, TLCExt, Toolbox, Output, Naturals, TLC

expression == 
    [
        \* To hide variables of the `Output` spec from the error trace,
        \* remove the variables below.  The trace will be written in the order
        \* of the fields of this record.
        room |-> room
        ,ended |-> ended
        ,n |-> n
        ,status |-> status
        ,sent |-> sent
        ,lens |-> lens
        ,lost |-> lost
        
        \* Put additional constant-, state-, and action-level expressions here:
        \* ,_stateNumber |-> _TEPosition
        \* ,_roomUnchanged |-> room = room'
        
        \* Format the `room` variable as Json value.
        \* ,_roomJson |->
        \*     LET J == INSTANCE Json
        \*     IN J!ToJson(room)
        
        \* Lastly, you may build expressions over arbitrary sets of states by
        \* leveraging the _TETrace operator.  For example, this is how to
        \* count the number of times a spec variable changed up to the current
        \* state in the trace.
        \* ,_roomModCount |->
        \*     LET F[s \in DOMAIN _TETrace] ==
        \*         IF s = 1 THEN 0
        \*         ELSE IF _TETrace[s].room # _TETrace[s-1].room
        \*             THEN 1 + F[s-1] ELSE F[s-1]
        \*     IN F[_TEPosition - 1]
    ]

=============================================================================



Parsing and semantic processing can take forever if the trace below is long.
 In this case, it is advised to uncomment the module below to deserialize the
 trace from a generated binary file.

\*
\*---- MODULE Output_TETrace ----
\*EXTENDS IOUtils, Output, TLC
\*
\*trace == IODeserialize("Output_TTrace_1795021009.bin", TRUE)
\*
\*=============================================================================
\*

---- MODULE Output_TETrace ----
EXTENDS Output, TLC

trace == 
    <<
    ([lost |-> FALSE,ended |-> FALSE,lens |-> <<1>>,sent |-> <<>>,room |-> 0,n |-> 1,status |-> 0]),
    ([lost |-> TRUE,ended |-> FALSE,lens |-> <<1>>,sent |-> <<>>,room |-> 0,n |-> 2,status |-> 0]),
    ([lost |-> TRUE,ended |-> TRUE,lens |-> <<1>>,sent |-> <<>>,room |-> 0,n |-> 2,status |-> 0])
    >>
----


=============================================================================

---- CONFIG Output_TTrace_1795021009 ----
CONSTANTS
    Pieces = 3
    MaxLen = 2
    Design = "ignores"

INVARIANT
    _inv

CHECK_DEADLOCK
    \* CHECK_DEADLOCK off because of PROPERTY or INVARIANT above.
    FALSE

INIT
    _init

NEXT
    _next

CONSTANT
    _TETrace <- _trace

ALIAS
    _expression
=============================================================================
\* Generated on Wed Nov 18 16:56:50 UTC 2026