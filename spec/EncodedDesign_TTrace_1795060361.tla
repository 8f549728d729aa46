---- MODULE EncodedDesign_TTrace_1795060361 ----
EXTENDS Sequences, EncodedDesign, TLCExt, Toolbox, Naturals, TLC

_expression ==
    LET EncodedDesign_TEExpression == INSTANCE EncodedDesign_TEExpression
    IN EncodedDesign_TEExpression!expression
----

_trace ==
    LET EncodedDesign_TETrace == INSTANCE EncodedDesign_TETrace
    IN EncodedDesign_TETrace!trace
----

_inv ==
    ~(
        TLCGet("level") = Len(_TETrace)
        /\
        buf = (<<>>)
        /\
        synced = (0)
        /\
        blocks = (<<[o |-> 0, d |-> <<2, 2, 2>>], [o |-> 0, d |-> <<1>>]>>)
        /\
        past = ({<<>>, <<1>>, <<2, 2, 2>>})
        /\
        good = (FALSE)
        /\
        bufAt = (0)
        /\
        content = (<<2, 2, 2>>)
    )
----

_init ==
    /\ synced = _TETrace[1].synced
    /\ blocks = _TETrace[1].blocks
    /\ good = _TETrace[1].good
    /\ past = _TETrace[1].past
    /\ buf = _TETrace[1].buf
    /\ content = _TETrace[1].content
    /\ bufAt = _TETrace[1].bufAt
----

_next ==
    /\ \E i,j \in DOMAIN _TETrace:
        /\ \/ /\ j = i + 1
              /\ i = TLCGet("level")
        /\ synced  = _TETrace[i].synced
        /\ synced' = _TETrace[j].synced
        /\ blocks  = _TETrace[i].blocks
        /\ blocks' = _TETrace[j].blocks
        /\ good  = _TETrace[i].good
        /\ good' = _TETrace[j].good
        /\ past  = _TETrace[i].past
        /\ past' = _TETrace[j].past
        /\ buf  = _TETrace[i].buf
        /\ buf' = _TETrace[j].buf
        /\ content  = _TETrace[i].content
        /\ content' = _TETrace[j].content
        /\ bufAt  = _TETrace[i].bufAt
        /\ bufAt' = _TETrace[j].bufAt

\* Uncomment the ASSUME below to write the states of the error trace
\* to the given file in Json format. Note that you can pass any tuple
\* to `JsonSerialize`. For example, a sub-sequence of _TETrace.
    \* ASSUME
    \*     LET J == INSTANCE Json
    \*         IN J!JsonSerialize("EncodedDesign_TTrace_1795060361.json", _TETrace)

=============================================================================

 Note that you can extract this module `EncodedDesign_TEExpression`
  to a dedicated file to reuse `expression` (the module in the 
  dedicated `EncodedDesign_TEExpression.tla` file takes precedence 
  over the module `EncodedDesign_TEExpression` below).

---- MODULE EncodedDesign_TEExpression ----
EXTENDS Sequences, EncodedDesign, TLCExt, Toolbox, Naturals, TLC

expression == 
    [
        \* To hide variables of the `EncodedDesign` spec from the error trace,
        \* remove the variables below.  The trace will be written in the order
        \* of the fields of this record.
        synced |-> synced
        ,blocks |-> blocks
        ,good |-> good
        ,past |-> past
        ,buf |-> buf
        ,content |-> content
        ,bufAt |-> bufAt
        
        \* Put additional constant-, state-, and action-level expressions here:
        \* ,_stateNumber |-> _TEPosition
        \* ,_syncedUnchanged |-> synced = synced'
        
        \* Format the `synced` variable as Json value.
        \* ,_syncedJson |->
        \*     LET J == INSTANCE Json
        \*     IN J!ToJson(synced)
        
        \* Lastly, you may build expressions over arbitrary sets of states by
        \* leveraging the _TETrace operator.  For example, this is how to
        \* count the number of times a spec variable changed up to the current
        \* state in the trace.
        \* ,_syncedModCount |->
        \*     LET F[s \in DOMAIN _TETrace] ==
        \*         IF s = 1 THEN 0
        \*         ELSE IF _TETrace[s].synced # _TETrace[s-1].synced
        \*             THEN 1 + F[s-1] ELSE F[s-1]
        \*     IN F[_TEPosition - 1]
    ]

=============================================================================



Parsing and semantic processing can take forever if the trace below is long.
 In this case, it is advised to uncomment the module below to deserialize the
 trace from a generated binary file.

\*
\*---- MODULE EncodedDesign_TETrace ----
\*EXTENDS IOUtils, EncodedDesign, TLC
\*
\*trace == IODeserialize("EncodedDesign_TTrace_1795060361.bin", TRUE)
\*
\*=============================================================================
\*

---- MODULE EncodedDesign_TETrace ----
EXTENDS EncodedDesign, TLC

trace == 
    <<
    ([buf |-> <<>>,synced |-> 0,blocks |-> <<>>,past |-> {<<>>},good |-> TRUE,bufAt |-> 0,content |-> <<>>]),
    ([buf |-> <<1>>,synced |-> 0,blocks |-> <<>>,past |-> {<<>>, <<1>>},good |-> TRUE,bufAt |-> 0,content |-> <<1>>]),
    ([buf |-> <<1>>,synced |-> 0,blocks |-> <<[o |-> 0, d |-> <<2, 2, 2>>]>>,past |-> {<<>>, <<1>>, <<2, 2, 2>>},good |-> TRUE,bufAt |-> 0,content |-> <<2, 2, 2>>]),
    ([buf |-> <<>>,synced |-> 0,blocks |-> <<[o |-> 0, d |-> <<2, 2, 2>>], [o |-> 0, d |-> <<1>>]>>,past |-> {<<>>, <<1>>, <<2, 2, 2>>},good |-> FALSE,bufAt |-> 0,content |-> <<2, 2, 2>>])
    >>
----


=============================================================================

---- CONFIG EncodedDesign_TTrace_1795060361 ----
CONSTANTS
    W = 2
    Size = 4
    MaxBlocks = 2
    Design = "direct"

INVARIANT
    _inv

CHECK_DEADLOCK
    \* CHECK_DEADLOCK off because of PROPERTY or INVARIANT above.
    FALSE

INIT
    _init

NEXT
    _next

CONSTANT
    _TETrace <- _trace

ALIAS
    _expression
=============================================================================
\* Generated on Thu Nov 19 03:52:42 UTC 2026