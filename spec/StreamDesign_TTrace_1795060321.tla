---- MODULE StreamDesign_TTrace_1795060321 ----
EXTENDS Sequences, TLCExt, Toolbox, Naturals, TLC, StreamDesign

_expression ==
    LET StreamDesign_TEExpression == INSTANCE StreamDesign_TEExpression
    IN StreamDesign_TEExpression!expression
----

_trace ==
    LET StreamDesign_TETrace == INSTANCE StreamDesign_TETrace
    IN StreamDesign_TETrace!trace
----

_inv ==
    ~(
        TLCGet("level") = Len(_TETrace)
        /\
        file = (<<1>>)
        /\
        split = (FALSE)
        /\
        last = ("out")
        /\
        pos = (1)
        /\
        get = (1)
        /\
        good = (FALSE)
        /\
        put = (1)
        /\
        content = (<<1>>)
        /\
        direction = ("in")
    )
----

_init ==
    /\ put = _TETrace[1].put
    /\ pos = _TETrace[1].pos
    /\ direction = _TETrace[1].direction
    /\ get = _TETrace[1].get
    /\ good = _TETrace[1].good
    /\ last = _TETrace[1].last
    /\ file = _TETrace[1].file
    /\ content = _TETrace[1].content
    /\ split = _TETrace[1].split
----

_next ==
    /\ \E i,j \in DOMAIN _TETrace:
        /\ \/ /\ j = i + 1
              /\ i = TLCGet("level")
        /\ put  = _TETrace[i].put
        /\ put' = _TETrace[j].put
        /\ pos  = _TETrace[i].pos
        /\ pos' = _TETrace[j].pos
        /\ direction  = _TETrace[i].direction
        /\ direction' = _TETrace[j].direction
        /\ get  = _TETrace[i].get
        /\ get' = _TETrace[j].get
        /\ good  = _TETrace[i].good
        /\ good' = _TETrace[j].good
        /\ last  = _TETrace[i].last
        /\ last' = _TETrace[j].last
        /\ file  = _TETrace[i].file
        /\ file' = _TETrace[j].file
        /\ content  = _TETrace[i].content
        /\ content' = _TETrace[j].content
        /\ split  = _TETrace[i].split
        /\ split' = _TETrace[j].split

\* Uncomment the ASSUME below to write the states of the error trace
\* to the given file in Json format. Note that you can pass any tuple
\* to `JsonSerialize`. For example, a sub-sequence of _TETrace.
    \* ASSUME
    \*     LET J == INSTANCE Json
    \*         IN J!JsonSerialize("StreamDesign_TTrace_1795060321.json", _TETrace)

=============================================================================

 Note that you can extract this module `StreamDesign_TEExpression`
  to a dedicated file to reuse `expression` (the module in the 
  dedicated `StreamDesign_TEExpression.tla` file takes precedence 
  over the module `StreamDesign_TEExpression` below).

---- MODULE StreamDesign_TEExpression ----
EXTENDS Sequences, TLCExt, Toolbox, Naturals, TLC, StreamDesign

expression == 
    [
        \* To hide variables of the `StreamDesign` spec from the error trace,
        \* remove the variables below.  The trace will be written in the order
        \* of the fields of this record.
        put |-> put
        ,pos |-> pos
        ,direction |-> direction
        ,get |-> get
        ,good |-> good
        ,last |-> last
        ,file |-> file
        ,content |-> content
        ,split |-> split
        
        \* Put additional constant-, state-, and action-level expressions here:
        \* ,_stateNumber |-> _TEPosition
        \* ,_putUnchanged |-> put = put'
        
        \* Format the `put` variable as Json value.
        \* ,_putJson |->
        \*     LET J == INSTANCE Json
        \*     IN J!ToJson(put)
        
        \* Lastly, you may build expressions over arbitrary sets of states by
        \* leveraging the _TETrace operator.  For example, this is how to
        \* count the number of times a spec variable changed up to the current
        \* state in the trace.
        \* ,_putModCount |->
        \*     LET F[s \in DOMAIN _TETrace] ==
        \*         IF s = 1 THEN 0
        \*         ELSE IF _TETrace[s].put # _TETrace[s-1].put
        \*             THEN 1 + F[s-1] ELSE F[s-1]
        \*     IN F[_TEPosition - 1]
    ]

=============================================================================



Parsing and semantic processing can take forever if the trace below is long.
 In this case, it is advised to uncomment the module below to deserialize the
 trace from a generated binary file.

\*
\*---- MODULE StreamDesign_TETrace ----
\*EXTENDS IOUtils, TLC, StreamDesign
\*
\*trace == IODeserialize("StreamDesign_TTrace_1795060321.bin", TRUE)
\*
\*=============================================================================
\*

---- MODULE StreamDesign_TETrace ----
EXTENDS TLC, StreamDesign

trace == 
    <<
    ([file |-> <<>>,split |-> FALSE,last |-> "none",pos |-> 0,get |-> 0,good |-> TRUE,put |-> 0,content |-> <<>>,direction |-> "in"]),
    ([file |-> <<>>,split |-> FALSE,last |-> "in",pos |-> 0,get |-> 0,good |-> TRUE,put |-> 0,content |-> <<>>,direction |-> "in"]),
    ([file |-> <<1>>,split |-> FALSE,last |-> "out",pos |-> 1,get |-> 1,good |-> FALSE,put |-> 1,content |-> <<1>>,direction |-> "in"])
    >>
----


=============================================================================

---- CONFIG StreamDesign_TTrace_1795060321 ----
CONSTANTS
    Size = 4
    Design = "position"

INVARIANT
    _inv

CHECK_DEADLOCK
    \* CHECK_DEADLOCK off because of PROPERTY or INVARIANT above.
    FALSE

INIT
    _init

NEXT
    _next

CONSTANT
    _TETrace <- _trace

ALIAS
    _expression
=============================================================================
\* Generated on Thu Nov 19 03:52:02 UTC 2026