----------------------------- MODULE MaintSpec -----------------------------
(***************************************************************************)
(* Resizing and condensing a container that others go on using.            *)
(*                                                                         *)
(* Groups have an identity here (field id), since a transaction that began *)
(* before a group became the primary, or left the container, still knows   *)
(* the container as it was.                                                *)
(*                                                                         *)
(* First part: what users may rely on, as relations between the states     *)
(* that are stored one after another.  Recorded traces are judged by it.   *)
(* Second part: the protocol by which transactions on single objects       *)
(* achieve that.  TLC shows that it does, and that each of its rules is    *)
(* needed.                                                                 *)
(***************************************************************************)
EXTENDS ContainerSpec

Ids(c) == {c.grps[i].id : i \in 1..NGrp(c)}
Place(c, id) == CHOOSE i \in 1..NGrp(c) : c.grps[i].id = id
Grp(c, id) == c.grps[Place(c, id)]
PrimId(c) == Prim(c).id

\* What a transaction does to the objects: a function from ids to <<value>>
\* or <<>> (removed).
Apply(view, log) ==
  LET gone == {k \in DOMAIN log : log[k] = <<>>}
  IN  [k \in (DOMAIN view \cup DOMAIN log) \ gone |->
         IF k \in DOMAIN log THEN log[k][1] ELSE view[k]]

\* What turned the objects of a into those of b.
Log(a, b) ==
  LET x == ViewMap(a) y == ViewMap(b)
  IN  [k \in {k \in DOMAIN x \cup DOMAIN y :
               (k \in DOMAIN x) # (k \in DOMAIN y) \/ (k \in DOMAIN x /\ x[k] # y[k])} |->
         IF k \in DOMAIN y THEN <<y[k]>> ELSE <<>>]

-----------------------------------------------------------------------------
(* What may be stored after a transaction of somebody using the container  *)
(* that did log, when a was stored before.                                 *)

UserStep(a, b, log) ==
  /\ ViewMap(b) = Apply(ViewMap(a), log)
  /\ b.prim = a.prim /\ NGrp(b) = NGrp(a)
  /\ \A i \in 1..NGrp(a) : [b.grps[i] EXCEPT !.store = EmptyStore]
                              = [a.grps[i] EXCEPT !.store = EmptyStore]

(* What may be stored after a transaction of a resize or condense.  caps    *)
(* are the sizes of the collections of the group a resize makes (<<>> for   *)
(* condense).  However the work is divided over transactions:               *)
(* nothing that can be read changes, groups other than the primary only     *)
(* lose entries, and those and groups only if asked to transfer.            *)
MaintStep(a, b, caps, transfer) ==
  LET new == Ids(b) \ Ids(a)
      stay == Ids(b) \cap Ids(a)
      old == {a.grps[i].id : i \in 1..NGrp(a)} \ {PrimId(b)}
  IN
  /\ ViewMap(b) = ViewMap(a)
  /\ b.prim \in 1..NGrp(b) /\ Cardinality(Ids(b)) = NGrp(b)
  /\ new # {} => /\ caps # <<>> /\ new = {PrimId(b)}
                 /\ Prim(b).caps = caps /\ Prim(b).strict = Prim(a).strict
  /\ new = {} => PrimId(b) = PrimId(a)
  /\ Ids(a) \ Ids(b) # {} => transfer
  /\ \A g \in stay :
       [Grp(b, g) EXCEPT !.store = EmptyStore]
         = [Grp(a, g) EXCEPT !.store = EmptyStore]
  \* those that stay keep the order in which they are read
  /\ \A g, h \in stay \ {PrimId(b), PrimId(a)} :
       Place(a, g) < Place(a, h) => Place(b, g) < Place(b, h)
  /\ \A g \in old \cap stay :
       /\ \A k \in Keys(Grp(b, g)) :
            k \in Keys(Grp(a, g)) /\ Grp(b, g).store[k] = Grp(a, g).store[k]
       /\ ~transfer => Keys(Grp(b, g)) = Keys(Grp(a, g))

\* A resize or condense of groups src that ended well, with no other going on.
\* (A copy made in one transaction is of what was there when it began.)
Finished(c, src, transfer) ==
  IF transfer THEN src \cap Ids(c) = {}
  ELSE \A g \in src \cap Ids(c) : Keys(Grp(c, g)) \subseteq Keys(Prim(c))

-----------------------------------------------------------------------------
(* The protocol.  stored is the container, epoch counts the changes of its *)
(* list of groups, truth is what users have committed.                     *)

\* Each rule can be left out, to see what it is for.
CONSTANTS RuleGuard,   \* writers conflict with changes of the list of groups
          RuleInside,  \* the list is computed in the transaction that stores it
          RuleVisible, \* what is moved is the object that can be read
          RuleHold     \* an object that only another group has is read as current

VARIABLES stored, epoch, truth, users, maints, what

mtvars == <<stored, epoch, truth, users, maints, what>>

IdSeq(c) == [i \in 1..NGrp(c) |-> c.grps[i].id]

\* <<group, id>> of the objects that differ.
Cells(c) == UNION {{<<c.grps[i].id, k>> : k \in Keys(c.grps[i])} : i \in 1..NGrp(c)}
At(c, p) == IF p \in Cells(c) THEN <<Grp(c, p[1]).store[p[2]]>> ELSE <<>>
\* Groups that left the container keep what they held.
Changed(a, b) ==
  {p \in Cells(a) \cup Cells(b) : p[1] \in Ids(a) \cap Ids(b) /\ At(a, p) # At(b, p)}

\* The changes from base to view, made to now.
Merge3(base, view, now, list) ==
  LET ch == Changed(base, view)
      mk(g) == LET mine == {p[2] : p \in {q \in ch : q[1] = g.id}}
                   fresh == g.id \notin Ids(base)
                   from == IF g.id \in Ids(view) THEN Grp(view, g.id).store ELSE g.store
               IN  IF fresh /\ g.id \notin Ids(now) THEN g
                   ELSE [g EXCEPT !.store =
                      [k \in (DOMAIN g.store \ mine) \cup (mine \cap DOMAIN from) |->
                         IF k \in mine THEN from[k] ELSE g.store[k]]]
      src == IF list THEN view ELSE now
      cur(g) == IF g.id \in Ids(now) THEN Grp(now, g.id) ELSE g
  IN  [grps |-> [i \in 1..NGrp(src) |-> mk(cur(src.grps[i]))], prim |-> src.prim]

\* A transaction [base, view, epoch, list, guard, held]: list says that it
\* changes the list of groups, guard that it relies on it, held are cells it
\* relies on, emptied are groups it relies on holding nothing new.
Refused(tx) ==
  \/ Changed(tx.base, tx.view) \cap Changed(tx.base, stored) # {}
  \/ tx.list /\ epoch # tx.epoch
  \/ tx.guard /\ RuleGuard /\ epoch # tx.epoch
  \/ RuleHold /\ tx.held \cap Changed(tx.base, stored) # {}
  \/ \E p \in Changed(tx.base, stored) : p[1] \in tx.emptied

Store(tx) ==
  /\ stored' = Merge3(tx.base, tx.view, stored, tx.list)
  /\ epoch' = IF tx.list THEN epoch + 1 ELSE epoch

Tx(view, list, guard, held, emptied) ==
  [base |-> stored, view |-> view, epoch |-> epoch, list |-> list,
   guard |-> guard, held |-> held, emptied |-> emptied]
NoTx == [open |-> FALSE]

-----------------------------------------------------------------------------
\* Users.  users[u] = [open |-> FALSE] or [open, tx, log, view0]
\* Who writes an object that is in other groups only relies on its being there,
\* who deletes it relies on its not getting into the primary.
Elsewhere(c, k) ==
  IF k \in Keys(Prim(c)) THEN {}
  ELSE {<<c.grps[i].id, k>> : i \in {j \in 1..NGrp(c) : k \in Keys(c.grps[j])}}
Absent(c, k) == {<<PrimId(c), k>>} \ {<<PrimId(c), j>> : j \in Keys(Prim(c))}

UBegin(u) ==
  /\ ~users[u].open
  /\ users' = [users EXCEPT ![u] =
       [open |-> TRUE, tx |-> Tx(stored, FALSE, FALSE, {}, {})]]
  /\ UNCHANGED <<stored, epoch, truth, maints>>

UWrite(u, k, v) ==
  /\ users[u].open
  /\ users' = [users EXCEPT ![u].tx.view = CWrite(@, k, v).c, ![u].tx.guard = TRUE,
                            ![u].tx.held = @ \cup Elsewhere(users[u].tx.view, k)]
  /\ UNCHANGED <<stored, epoch, truth, maints>>

UDelete(u, k) ==
  /\ users[u].open
  /\ k \in AllKeys(users[u].tx.view)
  /\ users' = [users EXCEPT ![u].tx.view = CDelete(@, k).c, ![u].tx.guard = TRUE,
                            ![u].tx.held = @ \cup Absent(users[u].tx.view, k)]
  /\ UNCHANGED <<stored, epoch, truth, maints>>

UCommit(u) ==
  /\ users[u].open
  /\ users' = [users EXCEPT ![u] = NoTx]
  /\ IF Refused(users[u].tx)
     THEN UNCHANGED <<stored, epoch, truth, maints>>
     ELSE /\ Store(users[u].tx)
          /\ truth' = Apply(truth, Log(users[u].tx.base, users[u].tx.view))
          /\ UNCHANGED maints

-----------------------------------------------------------------------------
\* A resize or condense, in one transaction for each step (job.tm) or in one
\* for everything.  maints[m] = [st, job, phase, src, all, todo, listed, seen, tx]
Idle == [st |-> "idle"]

Range1(s) == {s[i] : i \in 1..Len(s)}
SecIds(c) == [i \in 1..Len(SecIdx(c)) |-> Secs(c)[i].id]

NewId ==
  1 + Max(Ids(stored) \cup UNION {IF maints[m].st = "tx" THEN Ids(maints[m].tx.view)
                                   ELSE {0} : m \in DOMAIN maints})

\* The stores of now in the list of c.
Current(c) ==
  [c EXCEPT !.grps = [i \in 1..NGrp(c) |->
     IF c.grps[i].id \in Ids(stored) THEN Grp(stored, c.grps[i].id) ELSE c.grps[i]]]

GrowOf(c, id, caps) ==
  [grps |-> <<[id |-> id, caps |-> caps, strict |-> FALSE, store |-> EmptyStore]>>
            \o ReadOrder(c),
   prim |-> 1]

Has1(c, g, k) == g \in Ids(c) /\ k \in Keys(Grp(c, g))

MoveOf(c, g, k, tr) ==
  IF ~Has1(c, g, k) THEN c
  ELSE LET v == IF RuleVisible THEN ReadVal(c, k) ELSE Grp(c, g).store[k]
           put == IF k \in Keys(Prim(c)) THEN c
                  ELSE [c EXCEPT !.grps[c.prim].store = Put(@, k, v)]
       IN  IF tr THEN [put EXCEPT !.grps[Place(c, g)].store = Without(@, {k})] ELSE put

DropOf(c, src) ==
  LET keep == SelectSeq(c.grps, LAMBDA g : g.id \notin Range1(src))
  IN  [grps |-> keep,
       prim |-> CHOOSE i \in 1..Len(keep) : keep[i].id = PrimId(c)]

RECURSIVE MoveAll(_, _, _, _)
MoveAll(c, g, ks, tr) ==
  IF ks = <<>> THEN c ELSE MoveAll(MoveOf(c, g, Head(ks), tr), g, Tail(ks), tr)
RECURSIVE MoveGroups(_, _, _)
MoveGroups(c, src, tr) ==
  IF src = <<>> THEN c
  ELSE MoveGroups(IF Head(src) \in Ids(c)
                  THEN MoveAll(c, Head(src), KeySeq(Keys(Grp(c, Head(src)))), tr) ELSE c,
                  Tail(src), tr)

\* Between transactions: which object of which group comes next?
RECURSIVE Settle(_, _)
Settle(mt, c) ==
  IF mt.phase # "move" \/ ~mt.job.tm THEN mt
  ELSE IF mt.src = <<>> THEN
         IF mt.job.transfer THEN [mt EXCEPT !.phase = "drop"] ELSE [mt EXCEPT !.phase = "end"]
  ELSE IF ~mt.listed THEN
         Settle([mt EXCEPT !.listed = TRUE,
                           !.todo = IF Head(mt.src) \in Ids(c)
                                    THEN KeySeq(Keys(Grp(c, Head(mt.src)))) ELSE <<>>], c)
  ELSE IF mt.todo = <<>> THEN Settle([mt EXCEPT !.src = Tail(@), !.listed = FALSE], c)
  ELSE mt

EndIf(mt) == IF mt.phase = "end" THEN Idle ELSE mt

MStart(m, job) ==
  LET src == IF job.op = "resize" THEN <<>> ELSE SecIds(stored)
  IN
  /\ maints[m].st = "idle"
  /\ maints' = [maints EXCEPT ![m] =
       EndIf(Settle([st |-> "next", job |-> job,
                     phase |-> IF job.op = "resize" THEN "grow" ELSE "move",
                     src |-> src, all |-> src, todo |-> <<>>, listed |-> FALSE,
                     seen |-> stored, tx |-> NoTx], stored))]
  /\ UNCHANGED <<stored, epoch, truth, users>>

\* The container whose list of groups the transaction works on.
Listed(mt) == IF RuleInside THEN stored ELSE Current(mt.seen)

\* All the work in one transaction, beginning with c.  A copy does not change
\* the list of groups, unless that was resized.
Whole(c, src, tr) ==
  LET moved == MoveGroups(c, src, tr)
  IN  Tx(IF tr THEN DropOf(moved, src) ELSE moved, tr \/ c # stored, TRUE,
         IF tr THEN {} ELSE Ids(stored) \X UNION {Keys(Grp(c, g)) : g \in Range1(src)},
         IF tr THEN Range1(src) ELSE {})

MBegin(m) ==
  LET mt == maints[m]
      tr == mt.job.transfer
      s == Listed(mt)
  IN
  /\ mt.st = "next"
  /\ maints' = [maints EXCEPT ![m] =
       IF mt.phase = "grow" THEN
         LET g == GrowOf(s, NewId, mt.job.caps)
             src == IF mt.job.all THEN Tail(IdSeq(g)) ELSE <<PrimId(s)>>
         IN  IF mt.job.tm
             THEN [mt EXCEPT !.st = "tx", !.tx = Tx(g, TRUE, TRUE, {}, {}),
                             !.src = src, !.all = src]
             ELSE [mt EXCEPT !.st = "tx", !.phase = "last", !.tx = Whole(g, src, tr),
                             !.src = src, !.all = src]
       ELSE IF mt.phase = "move" /\ ~mt.job.tm THEN
         [mt EXCEPT !.st = "tx", !.phase = "last", !.all = SecIds(stored),
                    !.tx = Whole(stored, SecIds(stored), tr)]
       ELSE IF mt.phase = "move" THEN
         LET g == Head(mt.src)
             k == Head(mt.todo)
             is == Has1(stored, g, k)
         IN  [mt EXCEPT !.st = "tx",
                !.tx = Tx(MoveOf(stored, g, k, tr), FALSE, is,
                          IF is /\ ~tr THEN Ids(stored) \X {k} ELSE {}, {})]
       ELSE [mt EXCEPT !.st = "tx", !.tx = Tx(DropOf(s, mt.all), TRUE, TRUE, {}, {})]]
  /\ UNCHANGED <<stored, epoch, truth, users>>

MCommit(m) ==
  LET mt == maints[m]
      after == CASE mt.phase = "grow" -> [mt EXCEPT !.phase = "move"]
                 [] mt.phase = "move" -> [mt EXCEPT !.todo = Tail(@)]
                 [] OTHER -> [mt EXCEPT !.phase = "end"]
  IN
  /\ mt.st = "tx"
  /\ IF Refused(mt.tx)
     THEN /\ maints' = [maints EXCEPT ![m] = Idle]
          /\ UNCHANGED <<stored, epoch>>
     ELSE /\ Store(mt.tx)
          /\ maints' = [maints EXCEPT ![m] =
               EndIf(Settle([after EXCEPT !.st = "next", !.tx = NoTx, !.seen = stored'],
                            stored'))]
  /\ UNCHANGED <<truth, users>>
=============================================================================
