---- MODULE FileBufferDesign_TTrace_1795060249 ----
EXTENDS Sequences, TLCExt, FileBufferDesign, Toolbox, Naturals, TLC

_expression ==
    LET FileBufferDesign_TEExpression == INSTANCE FileBufferDesign_TEExpression
    IN FileBufferDesign_TEExpression!expression
----

_trace ==
    LET FileBufferDesign_TETrace == INSTANCE FileBufferDesign_TETrace
    IN FileBufferDesign_TETrace!trace
----

_inv ==
    ~(
        TLCGet("level") = Len(_TETrace)
        /\
        mode = ("write")
        /\
        at = (0)
        /\
        file = (<<>>)
        /\
        data = (<<1, 1, 1>>)
        /\
        ahead = (0)
        /\
        index = (4)
        /\
        where = (4)
        /\
        good = (FALSE)
        /\
        content = (<<1, 1, 1, 1>>)
    )
----

_init ==
    /\ ahead = _TETrace[1].ahead
    /\ index = _TETrace[1].index
    /\ good = _TETrace[1].good
    /\ at = _TETrace[1].at
    /\ mode = _TETrace[1].mode
    /\ file = _TETrace[1].file
    /\ content = _TETrace[1].content
    /\ data = _TETrace[1].data
    /\ where = _TETrace[1].where
----

_next ==
    /\ \E i,j \in DOMAIN _TETrace:
        /\ \/ /\ j = i + 1
              /\ i = TLCGet("level")
        /\ ahead  = _TETrace[i].ahead
        /\ ahead' = _TETrace[j].ahead
        /\ index  = _TETrace[i].index
        /\ index' = _TETrace[j].index
        /\ good  = _TETrace[i].good
        /\ good' = _TETrace[j].good
        /\ at  = _TETrace[i].at
        /\ at' = _TETrace[j].at
        /\ mode  = _TETrace[i].mode
        /\ mode' = _TETrace[j].mode
        /\ file  = _TETrace[i].file
        /\ file' = _TETrace[j].file
        /\ content  = _TETrace[i].content
        /\ content' = _TETrace[j].content
        /\ data  = _TETrace[i].data
        /\ data' = _TETrace[j].data
        /\ where  = _TETrace[i].where
        /\ where' = _TETrace[j].where

\* Uncomment the ASSUME below to write the states of the error trace
\* to the given file in Json format. Note that you can pass any tuple
\* to `JsonSerialize`. For example, a sub-sequence of _TETrace.
    \* ASSUME
    \*     LET J == INSTANCE Json
    \*         IN J!JsonSerialize("FileBufferDesign_TTrace_1795060249.json", _TETrace)

=============================================================================

 Note that you can extract this module `FileBufferDesign_TEExpression`
  to a dedicated file to reuse `expression` (the module in the 
  dedicated `FileBufferDesign_TEExpression.tla` file takes precedence 
  over the module `FileBufferDesign_TEExpression` below).

---- MODULE FileBufferDesign_TEExpression ----
EXTENDS Sequences, TLCExt, FileBufferDesign, Toolbox, Naturals, TLC

expression == 
    [
        \* To hide variables of the `FileBufferDesign` spec from the error trace,
        \* remove the variables below.  The trace will be written in the order
        \* of the fields of this record.
        ahead |-> ahead
        ,index |-> index
        ,good |-> good
        ,at |-> at
        ,mode |-> mode
        ,file |-> file
        ,content |-> content
        ,data |-> data
        ,where |-> where
        
        \* Put additional constant-, state-, and action-level expressions here:
        \* ,_stateNumber |-> _TEPosition
        \* ,_aheadUnchanged |-> ahead = ahead'
        
        \* Format the `ahead` variable as Json value.
        \* ,_aheadJson |->
        \*     LET J == INSTANCE Json
        \*     IN J!ToJson(ahead)
        
        \* Lastly, you may build expressions over arbitrary sets of states by
        \* leveraging the _TETrace operator.  For example, this is how to
        \* count the number of times a spec variable changed up to the current
        \* state in the trace.
        \* ,_aheadModCount |->
        \*     LET F[s \in DOMAIN _TETrace] ==
        \*         IF s = 1 THEN 0
        \*         ELSE IF _TETrace[s].ahead # _TETrace[s-1].ahead
        \*             THEN 1 + F[s-1] ELSE F[s-1]
        \*     IN F[_TEPosition - 1]
    ]

=============================================================================



Parsing and semantic processing can take forever if the trace below is long.
 In this case, it is advised to uncomment the module below to deserialize the
 trace from a generated binary file.

\*
\*---- MODULE FileBufferDesign_TETrace ----
\*EXTENDS IOUtils, FileBufferDesign, TLC
\*
\*trace == IODeserialize("FileBufferDesign_TTrace_1795060249.bin", TRUE)
\*
\*=============================================================================
\*

---- MODULE FileBufferDesign_TETrace ----
EXTENDS FileBufferDesign, TLC

trace == 
    <<
    ([mode |-> "none",at |-> 0,file |-> <<>>,data |-> <<0, 0, 0>>,ahead |-> 0,index |-> 0,where |-> 0,good |-> TRUE,content |-> <<>>]),
    ([mode |-> "write",at |-> 0,file |-> <<>>,data |-> <<1, 1, 0>>,ahead |-> 0,index |-> 2,where |-> 2,good |-> TRUE,content |-> <<1, 1>>]),
    ([mode |-> "write",at |-> 0,file |-> <<>>,data |-> <<1, 1, 1>>,ahead |-> 0,index |-> 3,where |-> 3,good |-> TRUE,content |-> <<1, 1, 1>>]),
    ([mode |-> "write",at |-> 0,file |-> <<>>,data |-> <<1, 1, 1>>,ahead |-> 0,index |-> 4,where |-> 4,good |-> FALSE,content |-> <<1, 1, 1, 1>>])
    >>
----


=============================================================================

---- CONFIG FileBufferDesign_TTrace_1795060249 ----
CONSTANTS
    N = 2
    X = 1
    Bytes = { 1 , 2 }
    MaxSize = 5
    MaxWrite = 4
    Design = "late"

INVARIANT
    _inv

CHECK_DEADLOCK
    \* CHECK_DEADLOCK off because of PROPERTY or INVARIANT above.
    FALSE

INIT
    _init

NEXT
    _next

CONSTANT
    _TETrace <- _trace

ALIAS
    _expression
=============================================================================
\* Generated on Thu Nov 19 03:50:50 UTC 2026