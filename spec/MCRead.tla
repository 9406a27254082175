------------------------------- MODULE MCRead -------------------------------
EXTENDS ReadSpec, Json
CONSTANT MCVersions
VARIABLE op
mcvars == <<rvars, op>>
K == <<97>>
Zero == [t |-> "int", n |-> 0]
One == [t |-> "str", n |-> 1]
Init ==
  /\ hist = [d \in {1, 2} |-> <<EmptyStore>>] /\ grp = <<>>
  /\ ans = RNone /\ op = [op |-> "init"]
Next ==
  \/ \E d \in {1, 2}, v \in {<<>>, <<Zero>>, <<One>>} :
       Change(d, K, v) /\ op' = [op |-> "change", d |-> d, k |-> K, v |-> v]
  \/ \E dbs \in {<<1>>, <<1, 2>>, <<2, 1>>}, p \in {0, 1} :
       /\ Join(dbs, [j \in 1..Len(dbs) |-> IF j = 1 THEN p ELSE 0])
       /\ op' = [op |-> "join", dbs |-> dbs,
                 past |-> [j \in 1..Len(dbs) |-> IF j = 1 THEN p ELSE 0]]
  \/ grp # <<>> /\ Refresh /\ op' = [op |-> "refresh"]
  \/ \E m \in BOOLEAN : grp # <<>> /\ Read(K, m)
       /\ op' = [op |-> "read", k |-> K, multiple |-> m]
Spec == Init /\ [][Next]_mcvars
Bound == \A d \in {1, 2} : Now(d) <= MCVersions
View == <<hist, grp>>
Emit == PrintT(<<"EDGE", ToJson([s |-> ToString(<<hist, grp>>), o |-> op',
                                 t |-> ToString(<<hist', grp'>>),
                                 i |-> (grp = <<>> /\ \A d \in {1, 2} : hist[d] = <<EmptyStore>>)])>>)

\* A single answer is what some database holds, and then no other does, at
\* some moment since the group was refreshed.
OneAnswer ==
  [][ (op'.op = "read" /\ ~op'.multiple /\ ans'.tag = "val") =>
      \E j \in 1..Len(grp) : \E n \in May(j) :
         K \in DOMAIN hist[grp[j].d][n] /\ hist[grp[j].d][n][K] = ans'.vals[1] ]_mcvars
\* Nothing is found only if every database lacked it at some such moment.
NothingMissed ==
  [][ (op'.op = "read" /\ ans'.tag = "nothing") =>
      \A j \in 1..Len(grp) : \E n \in May(j) : K \notin DOMAIN hist[grp[j].d][n] ]_mcvars
ReadsChangeNothing == [][ op'.op = "read" => hist' = hist ]_mcvars
=============================================================================
