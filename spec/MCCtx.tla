------------------------------- MODULE MCCtx -------------------------------
EXTENDS CtxSpec, Json
CONSTANTS MCProps, MCDepth, MCObjs
VARIABLE op
mcvars == <<xvars, op>>
Ctx == {"", "A", "B"}
One == {1}
Two == {1, 2}
Init ==
  /\ props = <<>> /\ stack = [o \in MCObjs |-> <<>>]
  /\ store = [o \in MCObjs |-> Nothing] /\ ans = Ok /\ op = [op |-> "init"]
Next ==
  \/ /\ Len(props) < MCProps
     /\ \/ New(1, 2, 0) /\ op' = [op |-> "new", g |-> 1, s |-> 2, d |-> 0]
        \/ \E p \in DOMAIN props, k \in {"get", "set", "del", "copy"} :
             Derive(p, k, 3) /\ op' = [op |-> "derive", p |-> p, kind |-> k, h |-> 3]
  \/ \E p \in DOMAIN props, k \in Kinds, c \in Ctx \ {"", "B"} :
       /\ Extend(p, k, c, 4)
       /\ op' = [op |-> "extend", p |-> p, kind |-> k, c |-> c, h |-> 4]
  \/ \E o \in Objs, c \in Ctx : /\ Len(stack[o]) < MCDepth /\ Open(o, c)
       /\ op' = [op |-> "open", o |-> o, c |-> c]
  \/ \E o \in Objs, raise \in BOOLEAN :
       Close(o) /\ op' = [op |-> "close", o |-> o, raise |-> raise]
  \/ \E o \in Objs, p \in DOMAIN props :
       \/ Get(o, p) /\ op' = [op |-> "get", o |-> o, p |-> p]
       \/ Set(o, p, 1) /\ op' = [op |-> "set", o |-> o, p |-> p, v |-> 1]
       \/ Del(o, p) /\ op' = [op |-> "del", o |-> o, p |-> p]
Spec == Init /\ [][Next]_mcvars
View == <<props, stack, store>>
Emit == PrintT(<<"EDGE", ToJson([s |-> ToString(<<props, stack, store>>), o |-> op',
                                 t |-> ToString(<<props', stack', store'>>),
                                 i |-> (props = <<>> /\ \A o \in Objs : stack[o] = <<>>)])>>)
NoEmit == TRUE

\* Opening a context on one object changes nothing for the others.
OtherObjects ==
  [][ \A o \in Objs, p \in DOMAIN props, k \in Kinds :
        ("o" \in DOMAIN op' /\ op'.o # o) => Chosen(o, p, k)' = Chosen(o, p, k) ]_mcvars
\* Deriving a property changes no existing one.
OldProperties ==
  [][ op'.op \in {"new", "derive"} => \A p \in DOMAIN props : props'[p] = props[p] ]_mcvars
\* Whatever happens in a block, its end restores what was used before.
Restored ==
  [][ op'.op = "open" => \A p \in DOMAIN props, k \in Kinds :
        LET s == stack'[op'.o] IN
        SubSeq(s, 1, Len(s) - 1) = stack[op'.o] ]_mcvars
Reading == [][ op'.op = "get" => UNCHANGED <<props, stack, store>> ]_mcvars
=============================================================================
