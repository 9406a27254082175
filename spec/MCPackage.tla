----------------------------- MODULE MCPackage -----------------------------
(* Two classes, one inheriting from the other, and two properties. *)
EXTENDS PackageSpec, Json
CONSTANTS MCPkgs, MCEngs
VARIABLE op
mcvars == <<kvars, op>>
A == "https://a.example/ns#K1"
B == "https://a.example/ns#K2"
F == "https://a.example/ns#p-f1"
G == "https://a.example/ns#p-f2"
Init ==
  /\ world = [classes |-> <<[ns |-> A, py |-> "K1", up |-> {1}, native |-> {"n1"}],
                            [ns |-> B, py |-> "K2", up |-> {1, 2}, native |-> {"n2"}]>>,
              props |-> <<[ns |-> F, name |-> "f1"], [ns |-> G, name |-> "f2"]>>]
  /\ pkgs = <<>> /\ engs = <<>> /\ ans = Ok /\ op = [op |-> "init"]
Maps == {<<>>, <<[ns |-> A, to |-> <<F>>]>>, <<[ns |-> B, to |-> <<G>>]>>,
         <<[ns |-> A, to |-> <<G, F>>]>>, <<[ns |-> B, to |-> <<F>>]>>}
Map(m) == [n \in {x.ns : x \in Range(m)} |->
             UNION {Range(x.to) : x \in {y \in Range(m) : y.ns = n}}]
Lists == {<<1>>, <<2>>, <<1, 2>>, <<2, 1>>}
Spaces2 == {"https://a.example", "https://b.example"}
Next ==
  \/ /\ Len(pkgs) < MCPkgs
     /\ \/ \E ns \in Spaces2, cs \in Lists, ps \in {<<1>>, <<1, 2>>}, m \in Maps :
             /\ ns = "https://a.example" => Len(pkgs) = 0
             /\ NewPackage(ns, Range(cs), Range(ps), Map(m))
             /\ op' = [op |-> "package", ns |-> ns, cs |-> cs, ps |-> ps, map |-> m]
        \/ \E p, q \in DOMAIN pkgs :
             \/ Add(p, q) /\ op' = [op |-> "add", p |-> p, q |-> q]
             \/ /\ Subtract(p, q, LET r == Rest(Len(pkgs) + 1, pkgs[p], pkgs[q]) IN
                     [n \in DOMAIN r.objs |-> r.objs[n].names])
                /\ op' = [op |-> "subtract", p |-> p, q |-> q]
  \/ /\ Len(engs) < MCEngs
     /\ \/ \E ps \in {<<>>, <<1>>, <<2, 1>>, <<1, 2>>} :
             NewEngine(ps) /\ op' = [op |-> "engine", ps |-> ps]
        \/ \E e \in DOMAIN engs :
             \/ \E p \in DOMAIN pkgs :
                  \/ AddPackage(e, p) /\ op' = [op |-> "addpackage", e |-> e, p |-> p]
                  \/ DropPackage(e, p) /\ op' = [op |-> "droppackage", e |-> e, p |-> p]
             \/ \E f \in DOMAIN engs :
                  \/ AddEngine(e, f) /\ op' = [op |-> "addengine", e |-> e, f |-> f]
                  \/ DropEngine(e, f) /\ op' = [op |-> "dropengine", e |-> e, f |-> f]
  \/ \E p \in DOMAIN pkgs, c \in {1, 2} : Adopt(p, c)
       /\ op' = [op |-> "adopt", p |-> p, c |-> c]
  \/ \E e \in DOMAIN engs, n \in {A, B} : Reads(e, n)
       /\ op' = [op |-> "read", e |-> e, ns |-> n]
Spec == Init /\ [][Next]_mcvars
View == <<pkgs, engs>>
Emit == PrintT(<<"EDGE", ToJson([s |-> ToString(<<pkgs, engs>>), o |-> op',
                                 t |-> ToString(<<pkgs', engs'>>),
                                 i |-> (pkgs = <<>> /\ engs = <<>>)])>>)
NoEmit == TRUE
Bound == Len(engs) <= MCEngs

\* What exists does not change, whatever is built from it.
Isolated ==
  [][ /\ world' = world
      /\ \A j \in DOMAIN pkgs : pkgs'[j] = pkgs[j]
      /\ \A j \in DOMAIN engs : engs'[j] = engs[j] ]_mcvars
\* Inheriting classes have all properties of the classes they inherit from.
Inherited ==
  \A j \in DOMAIN pkgs : \A n \in DOMAIN pkgs[j].objs : \A a \in pkgs[j].objs[n].anc :
    pkgs[j].objs[a].names \subseteq pkgs[j].objs[n].names
\* Every link holds.
Linked ==
  \A j \in DOMAIN pkgs : \A n \in DOMAIN pkgs[j].map \cap DOMAIN pkgs[j].objs :
    {NameOf(l) : l \in pkgs[j].map[n]} \subseteq pkgs[j].objs[n].names
\* An engine reads what any of its packages defines.
Complete ==
  \A j \in DOMAIN engs : DOMAIN engs[j].all.objs =
    UNION {DOMAIN engs[j].of[m].objs : m \in DOMAIN engs[j].of}
=============================================================================
