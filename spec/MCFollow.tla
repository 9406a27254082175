------------------------------ MODULE MCFollow ------------------------------
(* An object with a link, and a web of two documents that come, change, and *)
(* go, and may lead on to each other.                                       *)
EXTENDS AsSpec, Json
VARIABLE op
mcvars == <<avars, op>>
S(x) == Str(x)
A == "https://a.example/x"
B == "http://b.example/y"
M(m) == [k |-> "map", m |-> m]
L(l) == [k |-> "list", l |-> l]
Down == [k |-> "down"]
Docs(u) ==
  LET other == IF u = A THEN B ELSE A IN
  {Down, [k |-> "junk"],
   M(<<<<"type", S("Person")>>, <<"name", S("at " \o u)>>>>),
   M(<<<<"type", S("Note")>>, <<"attributedTo", S(other)>>, <<"@context", S(NS)>>>>),
   M(<<<<"type", S("Link")>>, <<"href", S(other)>>>>),
   M(<<<<"type", S("Note")>>, <<"actor", S("x")>>, <<"to", S("nobody")>>>>)}
Values ==
  {S(A), S(B), M(<<<<"href", S(A)>>, <<"name", S("l")>>>>),
   [k |-> "new", t |-> "Link", m |-> <<<<"href", S(A)>>>>],
   [k |-> "new", t |-> "Link", m |-> <<<<"href", S("nowhere")>>>>],
   [k |-> "new", t |-> "Mention", m |-> <<<<"href", S(A)>>>>],
   [k |-> "new", t |-> "Note", m |-> <<<<"attributedTo", S(A)>>>>],
   L(<<S(A)>>), None}
Names == {"attributedTo", "object", "url"}
Init == objs = <<>> /\ web = <<>> /\ ans = Ok /\ op = [op |-> "init"]
Next ==
  \/ /\ objs = <<>> /\ New("Create", <<>>) /\ op' = [op |-> "new", t |-> "Create", m |-> <<>>]
  \/ /\ objs # <<>>
     /\ \/ \E n \in Names, v \in Values :
             /\ \A m \in Names \ {n} : m \notin DOMAIN objs[1].o.v
             /\ Set(1, n, v) /\ op' = [op |-> "set", i |-> 1, n |-> n, v |-> v]
        \/ \E u \in {A, B} : \E d \in Docs(u) :
             Publish(u, d) /\ op' = [op |-> "publish", url |-> u, d |-> d]
        \/ \E n \in Names : Get(1, n) /\ op' = [op |-> "get", i |-> 1, n |-> n]
        \/ \E n \in Names, m \in {"attributedTo", "name", "href"} : \E ns \in {<<n, m>>, <<n, m, "name">>} :
             /\ n \in DOMAIN objs[1].o.v
             /\ Walk(1, ns) /\ op' = [op |-> "walk", i |-> 1, ns |-> ns]
        \/ Write2Json(1) /\ op' = [op |-> "write", i |-> 1]
Spec == Init /\ [][Next]_mcvars
View == <<objs, web>>
Emit == PrintT(<<"EDGE", ToJson([s |-> ToString(<<objs, web>>), o |-> op',
                                 t |-> ToString(<<objs', web'>>), i |-> (objs = <<>>)])>>)
NoEmit == TRUE
\* Following changes nothing, and only asks for what the object links to.
Following == [][op'.op \in {"get", "walk", "write"} => UNCHANGED <<objs, web>>]_mcvars
\* A link is the object it leads to, if there is one, and itself otherwise;
\* whatever else is held stays as it is.
Opened == \A i \in DOMAIN objs : \A n \in Names :
  LET v == Value(i, n)  f == Follow(v) IN
  /\ (f # v => IsLink(v) /\ Serves(v.v.href.s).k = "map" /\ f = Parse(Serves(v.v.href.s).m))
  /\ (Opens(v) = {} => f = v)
=============================================================================
