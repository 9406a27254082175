------------------------------ MODULE LifeSpec ------------------------------
(***************************************************************************)
(* Database files and the databases opened on them: creating, opening by   *)
(* path, by storage or in memory, opening again, refusing what is not a    *)
(* container database, and several databases joined by name.               *)
(*                                                                         *)
(* disk[p] = [there, root, cont, extra]: is there a file, does its root    *)
(*   hold a container ("container") or not ("none"), which, and does it    *)
(*   hold something else as well                                           *)
(* open[h] = [p, cont, ro]: the file that handle h has open, 0 if none, or *)
(*   -1 for a database in memory, whose contents are cont; may it only be  *)
(*   read?  (A file that is open for reading only is not opened in the     *)
(*   other way meanwhile, and vice versa.)                                 *)
(* sess[w] = the handles whose blocks (with db as connection) thread w has *)
(*   entered and not left, the innermost last                              *)
(***************************************************************************)
EXTENDS ContainerSpec

VARIABLES disk, open, sess, ans
lvars == <<disk, open, sess, ans>>

DefaultCap == 100000
DefaultMost == 5000

NoCont == [grps |-> <<>>, prim |-> 0]
Absent == [there |-> FALSE, root |-> "none", cont |-> NoCont, extra |-> FALSE]
Closed == [p |-> 0, cont |-> NoCont, ro |-> FALSE]
Opened(p) == [p |-> p, cont |-> NoCont, ro |-> FALSE]

NewDb(cap, strict) == CNew(cap, DefaultMost, strict)

Free(p) == \A h \in DOMAIN open : open[h].p # p
Contents(h) == IF open[h].p = -1 THEN open[h].cont ELSE disk[open[h].p].cont
Live(h) == open[h].p # 0

Locked(p) ==
  /\ \E h \in DOMAIN open : open[h].p = p /\ ~open[h].ro
  /\ UNCHANGED <<disk, open>> /\ ans' = RErr("LockError")

\* The environment puts a database there that somebody else made.
Plant(p, root, extra) ==
  /\ Free(p) /\ ~disk[p].there
  /\ disk' = [disk EXCEPT ![p] =
       [there |-> TRUE, root |-> root, extra |-> extra,
        cont |-> IF root = "container" THEN NewDb(7, TRUE) ELSE NoCont]]
  /\ UNCHANGED open /\ ans' = RNone

\* What the file is after it was created: an existing database keeps all it
\* has, unless it was asked to start afresh.
Created(p, cap, strict, fresh) ==
  LET old == IF fresh THEN Absent ELSE disk[p]
  IN  [there |-> TRUE, root |-> "container", extra |-> old.extra,
       cont |-> IF old.root = "container" THEN old.cont ELSE NewDb(cap, strict)]

Create(p, cap, strict, fresh) ==
  \/ Locked(p)
  \/ /\ Free(p)
     /\ disk' = [disk EXCEPT ![p] = Created(p, cap, strict, fresh)]
     /\ UNCHANGED open /\ ans' = RNone

New(h, p, cap, strict, fresh) ==
  /\ ~Live(h)
  /\ \/ Locked(p)
     \/ /\ Free(p)
        /\ disk' = [disk EXCEPT ![p] = Created(p, cap, strict, fresh)]
        /\ open' = [open EXCEPT ![h] = Opened(p)]
        /\ ans' = RNone

\* Opening for reading only: what is there, if it is a container database.
\* Any number of handles may do so.
ReadOnlyOutcome(p, how, fresh) ==
  IF how \in {"make", "new"} /\ fresh THEN RErr("ValueError")
  ELSE IF ~disk[p].there THEN RErr("FileNotFoundError")
  ELSE IF disk[p].root = "container" THEN RNone
  ELSE IF how \in {"make", "new"} THEN RErr("ReadOnlyError")
  ELSE RErr("IncompatibleDatabaseError")
ForReaders(p) == \A h \in DOMAIN open : open[h].p = p => open[h].ro
LookAt(h, p, how, fresh) ==
  /\ ForReaders(p) /\ (how # "make" => ~Live(h))
  /\ UNCHANGED disk
  /\ ans' = ReadOnlyOutcome(p, how, fresh)
  /\ open' = IF ans' = RNone /\ how # "make"
             THEN [open EXCEPT ![h] = [Opened(p) EXCEPT !.ro = TRUE]] ELSE open

\* Opening makes a database of the default size where there is no file, and
\* refuses a database without a container, leaving it as it is.
Open(h, p) ==
  /\ ~Live(h)
  /\ \/ Locked(p)
     \/ /\ Free(p) /\ disk[p].there /\ disk[p].root = "none"
        /\ UNCHANGED <<disk, open>> /\ ans' = RErr("IncompatibleDatabaseError")
     \/ /\ Free(p) /\ (disk[p].there => disk[p].root = "container")
        /\ disk' = IF disk[p].there THEN disk
                   ELSE [disk EXCEPT ![p] = Created(p, DefaultCap, FALSE, FALSE)]
        /\ open' = [open EXCEPT ![h] = Opened(p)]
        /\ ans' = RNone

\* The name is taken by another database of the same collection.
OpenTaken(h, p) ==
  /\ ~Live(h)
  /\ \/ Locked(p)
     \/ /\ Free(p) /\ disk[p].there
        /\ UNCHANGED <<disk, open>> /\ ans' = RErr("ValueError")

OpenMemory(h) ==
  /\ ~Live(h)
  /\ open' = [open EXCEPT ![h] = [p |-> -1, cont |-> NewDb(DefaultCap, FALSE),
                                ro |-> FALSE]]
  /\ UNCHANGED disk /\ ans' = RNone

Close(h) ==
  /\ Live(h)
  /\ open' = [open EXCEPT ![h] = Closed]
  /\ UNCHANGED disk /\ ans' = RNone

CloseAll ==
  /\ open' = [h \in DOMAIN open |-> Closed]
  /\ UNCHANGED disk /\ ans' = RNone

\* Contents c of each handle h in hs become the stored ones.
Store(cs) ==
  /\ disk' = [p \in DOMAIN disk |->
       IF \E h \in DOMAIN open : open[h].p = p
       THEN [disk[p] EXCEPT !.cont = cs[CHOOSE h \in DOMAIN open : open[h].p = p]]
       ELSE disk[p]]
  /\ open' = [h \in DOMAIN open |->
       IF open[h].p = -1 THEN [open[h] EXCEPT !.cont = cs[h]] ELSE open[h]]

AllContents == [h \in {g \in DOMAIN open : Live(g)} |-> Contents(h)]

Failed(r) == r.tag \in {"CapacityError", "ObjectOverwriteError", "KeyError"}
\* Steps that lead to contents cs and answer r: those that would change what
\* may only be read are refused.  (A step that would write what is there
\* already may be refused or not.)
ReadOnly(h) == Live(h) /\ open[h].ro
Finish(cs, r, written) ==
  \/ /\ \A h \in DOMAIN cs : ReadOnly(h) => cs[h] = Contents(h)
     /\ Store(cs) /\ ans' = r
  \/ /\ \E h \in written : ReadOnly(h)
     /\ UNCHANGED <<disk, open>> /\ ans' = RErr("ReadOnlyError")
Writes(e) == e.op \in {"create", "update", "delete"}

On(h, e) ==
  /\ Live(h)
  /\ LET x == Do(Contents(h), e)
     IN  Finish([AllContents EXCEPT ![h] = x.c], x.r,
                IF Writes(e) /\ ~Failed(x.r) THEN {h} ELSE {})

DbStrict(h, b) ==
  /\ Live(h)
  /\ Finish([AllContents EXCEPT ![h] = CSetStrict(@, b).c], RNone, {h})

Strict(h) ==
  /\ Live(h) /\ UNCHANGED <<disk, open>>
  /\ ans' = RBool(Prim(Contents(h)).strict)

\* A transaction over several databases: all of its changes, or none.
RECURSIVE Steps(_, _)
Steps(cs, steps) ==
  IF steps = <<>> THEN [cs |-> cs, r |-> RNone]
  ELSE LET x == Do(cs[Head(steps).h], Head(steps).e)
       IN  IF Failed(x.r) THEN [cs |-> cs, r |-> x.r]
           ELSE Steps([cs EXCEPT ![Head(steps).h] = x.c], Tail(steps))

Block(h, steps, how) ==
  /\ Live(h) /\ \A j \in 1..Len(steps) : Live(steps[j].h)
  /\ LET x == Steps(AllContents, steps)
     IN  IF Failed(x.r) THEN UNCHANGED <<disk, open>> /\ ans' = x.r
         ELSE IF how = "raise" THEN UNCHANGED <<disk, open>> /\ ans' = RErr("Stop")
         ELSE Finish(x.cs, RNone, {steps[j].h : j \in 1..Len(steps)})

\* Databases joined by name: those that are open, not those that were refused.
Registered == {h \in DOMAIN open : Live(h)}

-----------------------------------------------------------------------------
\* Blocks: each has a connection of its own, closed when it is left.
Idle(h) == \A w \in DOMAIN sess : \A d \in DOMAIN sess[w] : sess[w][d] # h
Enter(w, h) ==
  /\ Live(h)
  /\ sess' = [sess EXCEPT ![w] = Append(@, h)]
  /\ UNCHANGED <<disk, open>> /\ ans' = RNone
Leave(w) ==
  /\ sess[w] # <<>>
  /\ sess' = [sess EXCEPT ![w] = SubSeq(@, 1, Len(@) - 1)]
  /\ UNCHANGED <<disk, open>> /\ ans' = RBool(TRUE)
Say(w, d, e) ==
  /\ d \in DOMAIN sess[w]
  /\ On(sess[w][d], e) /\ UNCHANGED sess

-----------------------------------------------------------------------------
SessionsLive == \A w \in DOMAIN sess : \A d \in DOMAIN sess[w] : Live(sess[w][d])
TypeOK ==
  /\ \A p \in DOMAIN disk :
       /\ ~disk[p].there => disk[p] = Absent
       /\ disk[p].root = "container" <=> disk[p].cont # NoCont
  /\ \A h \in DOMAIN open : open[h].p > 0 =>
       disk[open[h].p].root = "container"

\* A file is open at most once.
OneOwner ==
  \A g, h \in DOMAIN open :
    g # h /\ open[g].p > 0 /\ open[g].p = open[h].p => open[g].ro /\ open[h].ro
=============================================================================
