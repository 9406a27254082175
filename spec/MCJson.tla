------------------------------- MODULE MCJson -------------------------------
(* Two classes, one inheriting, two objects, one of which may hold the other. *)
EXTENDS JsonSpec, Json
CONSTANTS MCObjs
VARIABLE op
mcvars == <<jvars, op>>
S(x) == [k |-> "str", s |-> x]
N(x) == [k |-> "num", n |-> x]
Init ==
  /\ world = [classes |-> <<[up |-> {1}, order |-> <<1>>, native |-> {"a", "aid", "hidden"}, fixed |-> <<>>, trans |-> <<>>],
                            [up |-> {1, 2}, order |-> <<2, 1>>, native |-> {"b", "viewed"}, fixed |-> [a |-> S("fixed")],
                             trans |-> <<[viewed |-> "wrap"]>>]>>,
              kind |-> [hidden |-> "hide", viewed |-> "view"]]
  /\ objs = <<>> /\ ans = Ok /\ op = [op |-> "init"]
Vals == {None, S("x"), N(5), [k |-> "bool", b |-> FALSE], [k |-> "list", l |-> <<None, N(7)>>],
         [k |-> "map", m |-> <<<<"acontext", S("x")>>, <<"b", None>>>>]}
All == {[include |-> i, exclude |-> e, rename |-> r, none |-> n, reject |-> j, json |-> TRUE,
         trans |-> tr] :
             i \in {{}, {"a", "b"}}, e \in {{}, {"b", "acontext"}}, r \in {<<>>, [b |-> "@b"]},
             n \in BOOLEAN, j \in {{}, {S("x")}},
             tr \in {<<>>, [a |-> "wrap", b |-> "drop"], [b |-> "word", viewed |-> "word"]}}
\* those that differ from the default in at most two ways
Params == {p \in All : Cardinality({f \in {"include", "exclude", "none", "reject"} :
             p[f] # (IF f = "none" THEN FALSE ELSE {})} \cup
             (IF p.rename = <<>> THEN {} ELSE {"rename"}) \cup
             (IF p.trans = <<>> THEN {} ELSE {"trans"})) <= 2}
\* The output, when every part of it is determined.
RECURSIVE Out(_), OutObj(_, _)
SetToSeq2(s) == CHOOSE q \in [1..Cardinality(s) -> s] : Range(q) = s
Out(v) ==
  CASE v.k = "obj" -> OutObj(v.o, Plain)
    [] v.k = "list" -> [k |-> "list", l |-> [i \in DOMAIN v.l |-> Out(v.l[i])]]
    [] v.k = "map" -> [k |-> "map", m |-> [i \in DOMAIN v.m |-> <<v.m[i][1], Out(v.m[i][2])>>]]
    [] OTHER -> v
OutObj(o, p) ==
  LET ns == SetToSeq2(Shown(o, p)) IN
  [k |-> "map", m |-> [i \in DOMAIN ns |-> <<Called(p.rename, ns[i]), Out(Made(o, ns[i], p))>>]]
Next ==
  \/ /\ Len(objs) < MCObjs
     /\ \E c \in {1, 2} : New(c) /\ op' = [op |-> "new", c |-> c]
  \/ \E o \in DOMAIN objs, n \in {"a", "aid", "b", "hidden", "viewed"}, v \in Vals :
       /\ n \in Names(o) /\ Stored(o, n) = None /\ v # None
       /\ (o = 2 => v = N(5) /\ n \in {"a", "b", "hidden"})
       /\ (n \in {"aid", "hidden"} => v = S("x")) /\ (n = "viewed" => v.k \in {"bool", "list"})
       /\ Set(o, n, v) /\ op' = [op |-> "set", o |-> o, n |-> n, v |-> v]
  \/ \E o \in DOMAIN objs : /\ o = 1 /\ Len(objs) = 2 /\ "b" \in Names(1) /\ Stored(1, "b") = None
       /\ Set(o, "b", [k |-> "obj", o |-> 2])
       /\ op' = [op |-> "set", o |-> o, n |-> "b", v |-> [k |-> "obj", o |-> 2]]
  \/ \E o \in DOMAIN objs, p \in Params :
       /\ Data(o, p, [tag |-> "out", v |-> OutObj(o, p)])
       /\ op' = [op |-> "data", o |-> o, p |-> p]
  \/ \E o \in DOMAIN objs, ns \in {<<"a">>, <<"a", "b">>, <<"nope", "a">>} :
       Index(o, ns) /\ op' = [op |-> "index", o |-> o, ns |-> ns]
Spec == Init /\ [][Next]_mcvars
View == objs
Emit == PrintT(<<"EDGE", ToJson([s |-> ToString(objs), o |-> op', t |-> ToString(objs'),
                                 i |-> (objs = <<>>)])>>)
NoEmit == TRUE
\* Reading changes nothing.
Reading == [][op'.op \in {"data", "index"} => objs' = objs]_mcvars
\* There always is exactly one output.
Determined ==
  \A o \in DOMAIN objs, p \in Params :
    /\ FitsObj(o, OutObj(o, p), p)
    /\ \A h \in Range(OutObj(o, p).m) : ~FitsObj(o, [k |-> "map", m |-> <<h>>], p) \/ Cardinality(Shown(o, p)) = 1
\* A renamed, excluded, unincluded or rejected property never shows.
Respected ==
  \A o \in DOMAIN objs, p \in Params : \A h \in Range(OutObj(o, p).m) :
    /\ h[1] \notin {"a", "b"} \ (IF p.include = {} THEN {"a", "b"} ELSE p.include)
    /\ h[1] \notin p.exclude /\ h[1] \notin {"acontext", "aid", "hidden"} \ (IF p.none THEN {"hidden"} ELSE {})
    /\ p.none \/ h[2] # None
    /\ (h[1] \in {"b", "@b"} /\ "b" \in DOMAIN p.trans)
         => \/ p.trans["b"] = "word" /\ h[2] = S("word")
            \/ p.none /\ h[2] = None
    /\ h[1] # "b" \/ p.rename = <<>>
=============================================================================
