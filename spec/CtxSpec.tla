------------------------------ MODULE CtxSpec ------------------------------
(***************************************************************************)
(* Properties whose behaviour depends on the context of the object.        *)
(*                                                                         *)
(* props[p][kind] = context -> function used for it; kind is get, set or   *)
(*   del, "" is the default, and function 0 stands for "there is none"     *)
(* stack[o] = the contexts opened on object o, innermost last; stack of an *)
(*   object that knows no contexts stays empty                             *)
(* store[o] = what the last function that wrote to object o left there     *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

VARIABLES props, stack, store, ans
xvars == <<props, stack, store, ans>>

Kinds == {"get", "set", "del"}
Nothing == <<0, 0>>
Ok == [tag |-> "ok", h |-> 0, v |-> Nothing]
Err == [tag |-> "AttributeError", h |-> 0, v |-> Nothing]
\* functions from this number on fail
Fails(h) == h >= 90
Failed == [tag |-> "Failure", h |-> 0, v |-> Nothing]

Objs == DOMAIN stack
Context(o) == IF stack[o] = <<>> THEN "" ELSE stack[o][Len(stack[o])]
Chosen(o, p, kind) ==
  LET m == props[p][kind]
  IN  IF Context(o) \in DOMAIN m THEN m[Context(o)] ELSE m[""]

New(g, s, d) ==
  /\ props' = Append(props, [get |-> ("" :> g), set |-> ("" :> s), del |-> ("" :> d)])
  /\ UNCHANGED <<stack, store>> /\ ans' = Ok

\* @prop.setter and the like give a new property and leave the old one alone.
Derive(p, kind, h) ==
  /\ p \in DOMAIN props
  /\ props' = Append(props, IF kind = "copy" THEN props[p]
                            ELSE [props[p] EXCEPT ![kind] = ("" :> h) @@ @])
  /\ UNCHANGED <<stack, store>> /\ ans' = Ok

\* @prop.setter_context(c) and the like extend the property itself.
Extend(p, kind, c, h) ==
  /\ p \in DOMAIN props
  /\ props' = [props EXCEPT ![p][kind] = (c :> h) @@ @]
  /\ UNCHANGED <<stack, store>> /\ ans' = Ok

Open(o, c) ==
  /\ stack' = [stack EXCEPT ![o] = Append(@, c)]
  /\ UNCHANGED <<props, store>> /\ ans' = Ok

\* The block ends, normally or not: the object is back in the context before.
Close(o) ==
  /\ stack[o] # <<>>
  /\ stack' = [stack EXCEPT ![o] = SubSeq(@, 1, Len(@) - 1)]
  /\ UNCHANGED <<props, store>> /\ ans' = Ok

Get(o, p) ==
  LET h == Chosen(o, p, "get") IN
  /\ p \in DOMAIN props
  /\ UNCHANGED <<props, stack, store>>
  /\ ans' = IF h = 0 THEN Err ELSE IF Fails(h) THEN Failed
            ELSE [tag |-> "val", h |-> h, v |-> store[o]]

Write(o, p, kind, v) ==
  LET h == Chosen(o, p, kind) IN
  /\ p \in DOMAIN props
  /\ UNCHANGED <<props, stack>>
  /\ store' = IF h = 0 \/ Fails(h) THEN store ELSE [store EXCEPT ![o] = <<h, v>>]
  /\ ans' = IF h = 0 THEN Err ELSE IF Fails(h) THEN Failed ELSE Ok

Set(o, p, v) == Write(o, p, "set", v)
Del(o, p) == Write(o, p, "del", -1)
=============================================================================
