------------------------------ MODULE MCGroup ------------------------------
(* Exhaustive exploration of GroupSpec on a few keys, with every operation. *)
EXTENDS GroupSpec, Json, IOUtils

KeysThree == {<<>>, <<97>>, <<98>>}
KeysFour == {<<>>, <<97>>, <<98>>, <<195, 169>>}
ValsTwo == {[t |-> "int", n |-> 0], [t |-> "int", n |-> 1]}
CapsFew == {<<1>>, <<2>>, <<1, 1>>, <<1, 2, 1>>}
CapsOne == {<<1>>, <<2>>, <<3>>}
CapsWide == {<<2, 1>>, <<2, 2, 2>>, <<1, 1, 1, 1, 1>>}
Both == {TRUE, FALSE}
Yes == {TRUE}
Never == {}
No == {FALSE}

CONSTANTS MCKeys, MCVals, MCCaps, MCStrict, MCToggle, MCEmit

VARIABLE op

mcvars == <<gvars, op>>

Opt(S) == {<<>>} \cup {<<x>> : x \in S}

Init ==
  /\ grp \in [caps : MCCaps, strict : MCStrict, store : {EmptyStore}]
  /\ resp = RNone
  /\ op = [op |-> "init"]

Next ==
  \/ \E k \in MCKeys, v \in MCVals :
       \/ Insert(k, v) /\ op' = [op |-> "insert", k |-> k, v |-> v]
       \/ SetDefault(k, v) /\ op' = [op |-> "setdefault", k |-> k, v |-> v]
       \/ Update(<<<<k, v>>>>) /\ op' = [op |-> "update", items |-> <<<<k, v>>>>]
  \/ \E k, j \in MCKeys, v \in MCVals :
       /\ LT(k, j)
       /\ Update(<<<<k, v>>, <<j, v>>>>)
       /\ op' = [op |-> "update", items |-> <<<<k, v>>, <<j, v>>>>]
  \/ \E k \in MCKeys :
       \/ \E d \in Opt(MCVals) :
            \/ Pop(k, d) /\ op' = [op |-> "pop", k |-> k, d |-> d]
            \/ Get(k, d) /\ op' = [op |-> "get", k |-> k, d |-> d]
       \/ HasKey(k) /\ op' = [op |-> "has_key", k |-> k]
  \/ PopItem /\ op' = [op |-> "popitem"]
  \/ Clear /\ op' = [op |-> "clear"]
  \/ \E b \in MCToggle : SetStrict(b) /\ op' = [op |-> "set_strict", b |-> b]
  \/ \E lo, hi \in Opt(MCKeys) :
       \/ IterKeys(lo, hi) /\ op' = [op |-> "iterkeys", lo |-> lo, hi |-> hi]
       \/ IterValues(lo, hi) /\ op' = [op |-> "itervalues", lo |-> lo, hi |-> hi]
       \/ IterItems(lo, hi) /\ op' = [op |-> "iteritems", lo |-> lo, hi |-> hi]
  \/ \E lo \in Opt(MCKeys) :
       \/ MinKey(lo) /\ op' = [op |-> "minKey", lo |-> lo]
       \/ MaxKey(lo) /\ op' = [op |-> "maxKey", hi |-> lo]
  \/ \E lo \in Opt(MCVals) : ByValue(lo) /\ op' = [op |-> "byValue", lo |-> lo]

Spec == Init /\ [][Next]_mcvars

\* States are the same when the group is: op and resp only describe the step.
View == grp

Emit ==
  \/ ~MCEmit
  \/ PrintT(<<"EDGE", ToJson([s |-> ToString(grp), o |-> op',
                              t |-> ToString(grp'), c |-> grp.caps,
                              x |-> grp.strict])>>)

\* A rejected or reading operation changes nothing; others touch only the
\* keys they name.
Frame ==
  [][ /\ resp'.tag \in {"CapacityError", "KeyError", "EmptyError"}
          => grp' = grp
      /\ op'.op \in {"insert", "setdefault", "pop"} =>
           \A k \in MCKeys \ {op'.k} :
             /\ k \in Keys(grp) <=> k \in Keys(grp')
             /\ k \in Keys(grp) => grp.store[k] = grp'.store[k]
      /\ (op'.op \in {"get", "has_key", "iterkeys", "itervalues", "iteritems",
                      "minKey", "maxKey", "byValue"}) => grp' = grp ]_mcvars

\* Strict groups never grow past their limits.
StrictNeverGrowsPast ==
  [][ grp.strict => \A i \in 1..NColl(grp) :
        CollSize(grp', i) <= Max({grp.caps[i], CollSize(grp, i)}) ]_mcvars
=============================================================================
