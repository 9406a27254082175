----------------------------- MODULE MCCluster -----------------------------
(* Exhaustive exploration of ClusterSpec. *)
EXTENDS ClusterSpec, Json
CONSTANTS MCNames, MCEmit
VARIABLES op
mcvars == <<clvars, op>>
NamesTwo == {"a", "b"}
NamesOne == {"a"}

Init == disk = <<>> /\ mods = <<>> /\ reg = Empty /\ away = Empty /\ ans = Ok /\ op = [op |-> "init"]
Data(n) == IF disk[n].db = <<>> THEN {} ELSE DOMAIN Objects(n)
Next ==
  \/ \E d, f \in BOOLEAN : Open(d, f) /\ op' = [op |-> "open", d |-> d, far |-> f]
  \/ Write(Far, "k", 1) /\ op' = [op |-> "write", n |-> Far, k |-> "k", v |-> 1]
  \/ Look(Far) /\ op' = [op |-> "look", n |-> Far]
  \/ Destroy(Far) /\ op' = [op |-> "destroy", n |-> Far]
  \/ Close /\ mods # <<>> /\ op' = [op |-> "close"]
  \/ Names /\ op' = [op |-> "names"]
  \/ Total /\ mods # <<>> /\ op' = [op |-> "total"]
  \/ \E n \in MCNames :
       \/ \E o \in BOOLEAN : Create(n, o) /\ op' = [op |-> "create", n |-> n, over |-> o]
       \/ Destroy(n) /\ (IsDir(n) => disk[n].init # "other") /\ op' = [op |-> "destroy", n |-> n]
       \/ \E e, a \in BOOLEAN :
            DestroyPath(n, e, a) /\ (IsDir(n) => disk[n].init # "other")
            /\ op' = [op |-> "destroypath", n |-> n, empty |-> e, all |-> a]
       \/ (IsDir(n) => disk[n].init # "other") /\ Direct(n) /\ op' = [op |-> "direct", n |-> n]
       \/ \E i \in {"other", "none"} : MkDir(n, i) /\ op' = [op |-> "mkdir", n |-> n, init |-> i]
       \/ PutFile(n, "f") /\ op' = [op |-> "putfile", n |-> n, f |-> "f"]
       \/ Write(n, "k", 1) /\ op' = [op |-> "write", n |-> n, k |-> "k", v |-> 1]
       \/ Usable(n) /\ "k" \in Data(n) /\ Remove(n, "k") /\ op' = [op |-> "remove", n |-> n, k |-> "k"]
       \/ Look(n) /\ op' = [op |-> "look", n |-> n]
Spec == Init /\ [][Next]_mcvars
View == <<disk, mods, away>>
Emit == \/ ~MCEmit
        \/ PrintT(<<"EDGE", ToJson([s |-> ToString(View), o |-> op', t |-> ToString(View'),
                                    i |-> (TLCGet("level") = 1)])>>)

Target == IF "n" \in DOMAIN op' THEN {op'.n} ELSE {}
\* Nothing happens to the directories an operation is not about.
OthersStay ==
  [][ op'.op # "open" =>
        \A n \in MCNames \ Target :
          (n \in DOMAIN disk) = (n \in DOMAIN disk')
          /\ (n \in DOMAIN disk => disk[n] = disk'[n]) ]_mcvars
\* Objects get lost only by being removed, or with their module.
ObjectsStay ==
  [][ \A n \in DOMAIN disk :
        (n \notin DOMAIN disk' \/ ~(Data(n) \subseteq (IF disk'[n].db = <<>> THEN {}
                                                       ELSE DOMAIN disk'[n].db[1])))
        => Target = {n} /\ op'.op \in {"destroy", "destroypath", "create", "remove"}
           /\ (op'.op = "create" => op'.over) ]_mcvars
\* Files of others get lost only if everything is to be removed.
FilesStay ==
  [][ \A n \in DOMAIN disk :
        (disk[n].foreign # {} /\ (n \notin DOMAIN disk' \/ disk'[n].foreign # disk[n].foreign))
        => op'.op = "putfile" \/ (op'.op = "destroypath" /\ op'.all) ]_mcvars
\* What is elsewhere changes only as its objects do.
AwayStays == [][away' # away => op'.op \in {"write", "remove"} /\ op'.n = Far]_mcvars
\* A group's live modules are there.
LiveIsThere == \A n \in DOMAIN mods : mods[n] = "live" => n = Far \/ (n \in Modules /\ disk[n].db # <<>>)
=============================================================================
