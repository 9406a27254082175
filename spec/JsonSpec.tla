------------------------------ MODULE JsonSpec ------------------------------
(***************************************************************************)
(* Objects as dictionaries and as JSON text.                               *)
(*                                                                         *)
(* world = [classes, kind]: classes[c] = [up, native, fixed]: the classes  *)
(*   it inherits from (itself included), the names of its own properties,  *)
(*   and names it gives a fixed value instead (a record name -> value);    *)
(*   kind[name] says how a property shows in the output: "plain" as it is, *)
(*   "view" wrapped in a list, "hide" not at all, "fail" raises an error.  *)
(* classes[c].trans: the transformations the class gives for names, as a   *)
(*   sequence of one record, or empty if it leaves that to its parents.    *)
(* objs[o] = [cls, vals]: the value of every name set so far.              *)
(*                                                                         *)
(* Values are tagged: none, bool (b), num (n), float (f), str (s), list,   *)
(* tuple, set, other iterables (l), map (m, pairs), obj (o), and anything  *)
(* else, with its text (s).                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES world, objs, ans
jvars == <<world, objs, ans>>

None == [k |-> "none"]
Ok == [tag |-> "ok"]
Err(t) == [tag |-> t]
Range(s) == {s[j] : j \in DOMAIN s}

\* What PROPERTIES and keys are called in the output.
Keymap == [abase |-> "@base", acontext |-> "@context", aid |-> "@id", atype |-> "@type",
           agraph |-> "@graph", alanguage |-> "@language", avalue |-> "@value"]
Called(rename, n) == IF n \in DOMAIN rename THEN rename[n]
                     ELSE IF n \in DOMAIN Keymap THEN Keymap[n] ELSE n

Ups(o) == world.classes[objs[o].cls].up
Names(o) == {"acontext"} \cup UNION {world.classes[a].native : a \in Ups(o)}
Kind(n) == IF n \in DOMAIN world.kind THEN world.kind[n] ELSE "plain"

\* The value an object has for a name: set, or fixed by the first class that
\* does so (up is in order, nearest first).
Fixed(o, n) ==
  LET u == world.classes[objs[o].cls].order
      s == SelectSeq(u, LAMBDA a : n \in DOMAIN world.classes[a].fixed
                                   \/ n \in world.classes[a].native)
  IN  IF s # <<>> /\ n \in DOMAIN world.classes[s[1]].fixed
      THEN world.classes[s[1]].fixed[n] ELSE None
\* a name with a fixed value is no property there any more
Shadowed(o, n) == Fixed(o, n) # None
Stored(o, n) == IF n \in DOMAIN objs[o].vals THEN objs[o].vals[n] ELSE Fixed(o, n)

\* The value as the output sees it; json says whether that is the context.
Fails(o, n, json) == json /\ ~Shadowed(o, n) /\ Kind(n) = "fail" /\ Stored(o, n) # None
Seen(o, n, json) ==
  IF ~json \/ Shadowed(o, n) THEN Stored(o, n)
  ELSE IF Kind(n) = "hide" THEN None
  ELSE IF Kind(n) = "view" /\ Stored(o, n) # None
  THEN [k |-> "list", l |-> <<Stored(o, n)>>] ELSE Stored(o, n)

\* What a transformation makes of a value.  What becomes of names without a
\* value is left open.
Default(o) ==
  LET u == world.classes[objs[o].cls].order
      s == SelectSeq(u, LAMBDA a : world.classes[a].trans # <<>>)
  IN  IF s = <<>> THEN <<>> ELSE world.classes[s[1]].trans[1]
Become(tr, n, v) ==
  IF n \notin DOMAIN tr \/ v = None THEN v
  ELSE CASE tr[n] = "wrap" -> [k |-> "list", l |-> <<v>>]
         [] tr[n] = "word" -> [k |-> "str", s |-> "word"]
         [] tr[n] = "drop" -> None
Made(o, n, p) ==
  LET v == Seen(o, n, p.json) IN
  IF n \in DOMAIN p.trans THEN Become(p.trans, n, v) ELSE Become(Default(o), n, v)

Chosen(o, p) ==
  {n \in Names(o) : /\ p.include = {} \/ n \in p.include
                    /\ n \notin p.exclude}
\* The names that appear.
Shown(o, p) ==
  {n \in Chosen(o, p) :
     LET v == Seen(o, n, p.json) IN
     /\ (v # None /\ Made(o, n, p) # None) \/ p.none
     /\ v \notin p.reject}
Plain == [include |-> {}, exclude |-> {"acontext"}, rename |-> <<>>, none |-> FALSE,
          reject |-> {}, json |-> TRUE, trans |-> <<>>]

RECURSIVE Breaks(_), Broken(_)
\* Whether writing a value, or an object, meets a failing property.
Breaks(v) ==
  CASE v.k = "obj" -> Broken(v.o)
    [] v.k \in {"list", "tuple", "set", "iter"} -> \E j \in DOMAIN v.l : Breaks(v.l[j])
    [] v.k = "map" -> \E j \in DOMAIN v.m : Breaks(v.m[j][2])
    [] OTHER -> FALSE
Broken(o) ==
  \/ \E n \in Names(o) \ {"acontext"} : Fails(o, n, TRUE)
  \/ \E n \in Shown(o, Plain) : Breaks(Made(o, n, Plain))

RECURSIVE Fits(_, _), FitsObj(_, _, _)
\* Whether the output j is that of the value v.
Fits(v, j) ==
  CASE v.k \in {"none", "bool", "num", "float", "str"} -> v = j
    [] v.k = "other" -> j.k = "str" /\ j.s = v.s
    [] v.k \in {"list", "tuple", "iter"} ->
         /\ j.k = "list" /\ Len(j.l) = Len(v.l)
         /\ \A i \in DOMAIN v.l : Fits(v.l[i], j.l[i])
    [] v.k = "set" ->
         /\ j.k = "list" /\ Len(j.l) = Len(v.l)
         /\ \A i \in DOMAIN v.l : \E h \in DOMAIN j.l : Fits(v.l[i], j.l[h])
         /\ \A h \in DOMAIN j.l : \E i \in DOMAIN v.l : Fits(v.l[i], j.l[h])
    [] v.k = "map" ->
         /\ j.k = "map" /\ Len(j.m) = Len(v.m)
         /\ \A i \in DOMAIN v.m : \E h \in DOMAIN j.m :
              j.m[h][1] = v.m[i][1] /\ Fits(v.m[i][2], j.m[h][2])
    [] v.k = "obj" -> FitsObj(v.o, j, Plain)
    [] OTHER -> FALSE
FitsObj(o, j, p) ==
  /\ j.k = "map"
  /\ Len(j.m) = Cardinality(Shown(o, p))
  /\ \A n \in Shown(o, p) : \E h \in DOMAIN j.m :
       /\ j.m[h][1] = Called(p.rename, n)
       /\ Fits(Made(o, n, p), j.m[h][2])

New(c) ==
  /\ objs' = Append(objs, [cls |-> c, vals |-> ("acontext" :> [k |-> "str", s |-> "ctx"])])
  /\ ans' = Ok /\ UNCHANGED world

Set(o, n, v) ==
  /\ o \in DOMAIN objs
  /\ objs' = [objs EXCEPT ![o].vals = (n :> v) @@ @]
  /\ ans' = Ok /\ UNCHANGED world

Get(o, n) ==
  /\ o \in DOMAIN objs
  /\ ans' = [tag |-> "val", v |-> Stored(o, n)] /\ UNCHANGED <<world, objs>>

\* The names indexed have to be properties, all of them.
Index(o, ns) ==
  /\ o \in DOMAIN objs
  /\ ans' = IF Range(ns) \subseteq Names(o)
            THEN [tag |-> "got", m |-> {<<n, Stored(o, n)>> : n \in Range(ns)}]
            ELSE Err("KeyError")
  /\ UNCHANGED <<world, objs>>

Items(o) ==
  /\ o \in DOMAIN objs
  /\ ans' = [tag |-> "got", m |-> {<<n, Stored(o, n)>> : n \in Names(o)}]
  /\ UNCHANGED <<world, objs>>

\* out = the output, or "Failure".  A failing property has to make it fail if
\* it is to be part of the output, and may do so if it is left out.
Data(o, p, out) ==
  /\ o \in DOMAIN objs
  /\ LET must == \/ \E n \in Chosen(o, p) : Fails(o, n, p.json)
                 \/ \E n \in Shown(o, p) : Breaks(Made(o, n, p))
         may == \E n \in Names(o) : Fails(o, n, p.json)
     IN  \/ out.tag = "Failure" /\ (must \/ may)
         \/ out.tag = "out" /\ ~must /\ FitsObj(o, out.v, p)
  /\ ans' = out /\ UNCHANGED <<world, objs>>
=============================================================================
