---------------------------- MODULE ClusterSpec ----------------------------
(***************************************************************************)
(* Groups of database modules: directories that hold a database each and   *)
(* the code to open it.                                                    *)
(*                                                                         *)
(* disk[n] = a directory below the root: [init, db, foreign] with init     *)
(*   "module" (a module), "other" (some other package), or "none";         *)
(*   db <<>> or <<objects>>, objects a function from ids to values;        *)
(*   foreign = the files that do not belong to the module.                 *)
(* mods[n] = what the group has under a name: "live", or "stale" if its    *)
(*   directory was destroyed or replaced behind the group's back.          *)
(* away = the objects of a module in another directory, named Far, that a   *)
(*   group may be given besides the ones it finds.                         *)
(* reg = a registry of modules, a function from names to records.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES disk, mods, reg, away, ans
clvars == <<disk, mods, reg, away, ans>>
Far == "far"

Empty == [x \in {} |-> 0]
Ok == [tag |-> "ok"]
Err(t) == [tag |-> t]
Without(f, n) == [x \in DOMAIN f \ {n} |-> f[x]]
With(f, n, v) == [x \in DOMAIN f \cup {n} |-> IF x = n THEN v ELSE f[x]]

IsDir(n) == n \in DOMAIN disk
Modules == {n \in DOMAIN disk : disk[n].init = "module"}
Opened(d) == [d EXCEPT !.db = IF @ = <<>> THEN <<Empty>> ELSE @]
Objects(n) == IF n = Far THEN away ELSE disk[n].db[1]
Put(n, objects) ==
  IF n = Far THEN away' = objects /\ UNCHANGED disk
  ELSE disk' = [disk EXCEPT ![n].db = <<objects>>] /\ UNCHANGED away
Usable(n) == n \in DOMAIN mods /\ mods[n] = "live"

-----------------------------------------------------------------------------
\* A group that finds the modules there are, or that is to have none; far: it is
\* given a module from elsewhere as well.
Open(discovery, far) ==
  /\ mods = <<>>
  /\ mods' = [n \in (IF discovery THEN Modules ELSE {}) \cup (IF far THEN {Far} ELSE {}) |-> "live"]
  /\ disk' = [n \in DOMAIN disk |-> IF discovery /\ n \in Modules THEN Opened(disk[n])
                                    ELSE disk[n]]
  /\ ans' = Ok /\ UNCHANGED <<reg, away>>

\* A group of modules that were made before.
OpenWith(ns) ==
  /\ mods = <<>> /\ ns \subseteq Modules
  /\ mods' = [n \in ns |-> "live"]
  /\ disk' = [n \in DOMAIN disk |-> IF n \in ns THEN Opened(disk[n]) ELSE disk[n]]
  /\ ans' = Ok /\ UNCHANGED <<reg, away>>

Close == mods' = <<>> /\ ans' = Ok /\ UNCHANGED <<disk, reg, away>>

New(n) == [init |-> "module", db |-> <<Empty>>,
           foreign |-> IF IsDir(n) THEN disk[n].foreign ELSE {}]

Create(n, overwrite) ==
  /\ UNCHANGED <<reg, away>>
  /\ IF IsDir(n) /\ ~overwrite
     THEN ans' = Err("OSError") /\ UNCHANGED <<disk, mods>>
     ELSE /\ disk' = With(disk, n, New(n))
          /\ mods' = With(mods, n, "live")
          /\ ans' = [tag |-> "module", name |-> n]

\* Without a name, any that is free will do.
CreateAny(n) == ~IsDir(n) /\ Create(n, FALSE)

Left(n, removeEmpty, all) ==
  IF all \/ (removeEmpty /\ disk[n].foreign = {}) THEN Without(disk, n)
  ELSE [disk EXCEPT ![n] = [init |-> "none", db |-> <<>>, foreign |-> @.foreign]]

Destroy(n) ==
  /\ UNCHANGED <<reg, away>>
  /\ IF ~IsDir(n)
     THEN ans' = Err("FileNotFoundError") /\ UNCHANGED <<disk, mods>>
     ELSE disk' = Left(n, TRUE, FALSE) /\ mods' = Without(mods, n) /\ ans' = Ok

DestroyPath(n, removeEmpty, all) ==
  /\ UNCHANGED <<reg, away>>
  /\ IF ~IsDir(n)
     THEN ans' = Err("FileNotFoundError") /\ UNCHANGED <<disk, mods>>
     ELSE /\ disk' = Left(n, removeEmpty, all)
          /\ mods' = IF n \in DOMAIN mods THEN With(mods, n, "stale") ELSE mods
          /\ ans' = Ok

\* A module on its own; one that is not in the group, then closed again.
Direct(n) ==
  /\ n \notin DOMAIN mods
  /\ UNCHANGED <<mods, reg, away>>
  /\ IF n \in Modules
     THEN /\ disk' = [disk EXCEPT ![n] = Opened(@)]
          /\ ans' = [tag |-> "module", name |-> n]
     ELSE ans' = Err("FileNotFoundError") /\ UNCHANGED disk

Names == ans' = [tag |-> "names", names |-> DOMAIN mods] /\ UNCHANGED <<disk, mods, reg, away>>
Discover == ans' = [tag |-> "names", names |-> Modules] /\ UNCHANGED <<disk, mods, reg, away>>

\* Others put things there.
MkDir(n, init) ==
  /\ ~IsDir(n)
  /\ disk' = With(disk, n, [init |-> init, db |-> <<>>, foreign |-> {}])
  /\ ans' = Ok /\ UNCHANGED <<mods, reg, away>>
PutFile(n, f) ==
  /\ IsDir(n)
  /\ disk' = [disk EXCEPT ![n].foreign = @ \cup {f}]
  /\ ans' = Ok /\ UNCHANGED <<mods, reg, away>>

-----------------------------------------------------------------------------
\* The databases of the group.
Write(n, k, v) ==
  /\ Usable(n)
  /\ Put(n, With(Objects(n), k, v))
  /\ ans' = Ok /\ UNCHANGED <<mods, reg>>
Remove(n, k) ==
  /\ Usable(n)
  /\ Put(n, Without(Objects(n), k))
  /\ ans' = Ok /\ UNCHANGED <<mods, reg>>
Look(n) ==
  /\ Usable(n)
  /\ ans' = [tag |-> "objects",
             map |-> {<<k, Objects(n)[k]>> : k \in DOMAIN Objects(n)}]
  /\ UNCHANGED <<disk, mods, reg, away>>
Size(n) ==
  /\ Usable(n)
  /\ ans' = [tag |-> "size", n |-> Cardinality(DOMAIN Objects(n))]
  /\ UNCHANGED <<disk, mods, reg, away>>

RECURSIVE Sum(_)
Sum(ns) == IF ns = {} THEN 0
           ELSE LET n == CHOOSE n \in ns : TRUE
                IN  Cardinality(DOMAIN Objects(n)) + Sum(ns \ {n})
Total ==
  /\ \A n \in DOMAIN mods : mods[n] = "live"
  /\ ans' = [tag |-> "size", n |-> Sum(DOMAIN mods)]
  /\ UNCHANGED <<disk, mods, reg, away>>

\* The path of a module is set once.
Move(n) == Usable(n) /\ ans' = Err("AttributeError") /\ UNCHANGED <<disk, mods, reg, away>>

-----------------------------------------------------------------------------
\* The registry.
Note(n) ==
  /\ Usable(n)
  /\ reg' = With(reg, n, n) /\ ans' = Ok /\ UNCHANGED <<disk, mods, away>>
Noted(n) ==
  /\ ans' = IF n \in DOMAIN reg THEN [tag |-> "noted", name |-> reg[n]] ELSE [tag |-> "none"]
  /\ UNCHANGED <<disk, mods, reg, away>>
Forget(n) ==
  /\ reg' = Without(reg, n)
  /\ ans' = IF n \in DOMAIN reg THEN Ok ELSE Err("KeyError")
  /\ UNCHANGED <<disk, mods, away>>
Known ==
  /\ ans' = [tag |-> "names", names |-> DOMAIN reg] /\ UNCHANGED <<disk, mods, reg, away>>
=============================================================================
