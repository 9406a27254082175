------------------------------ MODULE MCSizing ------------------------------
(* Every request for sizes up to a bound. *)
EXTENDS SizingSpec
CONSTANT N
Groups == {[size |-> 2, strict |-> b] : b \in BOOLEAN}
Reqs ==
  {[op |-> o, cap |-> c, most |-> m, strict |-> b] :
     o \in {"collections", "next", "container"}, c \in 1..N, m \in 1..N, b \in {TRUE}}
  \cup {[op |-> "custom", custom |-> <<<<p, s>>, <<q, s + 1>>>>, size |-> z,
         most |-> 2, strict |-> FALSE] :
          p \in 0..2, q \in 3..5, s \in 0..2, z \in 0..7}
  \cup {[op |-> "holder", groups |-> gs, primary |-> p, more |-> g, strict |-> b] :
          gs \in [1..2 -> Groups], p \in 0..2, g \in Groups, b \in BOOLEAN}
  \cup {[op |-> "given", sizes |-> <<3, 1>>, same |-> d, strict |-> b] :
          d \in BOOLEAN, b \in BOOLEAN}
  \cup {[op |-> "db", cap |-> c, strict |-> b] : c \in {1, 4999, 5000, 5001, 20000}, b \in BOOLEAN}
Init == req \in Reqs /\ ans = [tag |-> "none"] /\ cont = 0 /\ resp = 0
Next == ans.tag = "none" /\ Ask(req) /\ UNCHANGED cvars
Spec == Init /\ [][Next]_<<svars, cvars>>
Right == ans.tag = "none" \/ SizedRight(req, ans)
=============================================================================
