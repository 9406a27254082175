------------------------------ MODULE TxnSpec ------------------------------
(***************************************************************************)
(* Connections to one database.  The database is a history of committed    *)
(* containers.  A connection works on a snapshot:                          *)
(*   "auto"  every create, update, delete is a transaction of its own;     *)
(*   "block" inside a transaction block, committed or aborted as a whole;  *)
(*   "off"   automatic commits are off, the user commits or aborts.        *)
(*                                                                         *)
(* hist = sequence of containers, the last one is what is stored           *)
(* conns[c] = [mode, base, view, wrote, maybe, read] where base is the place in  *)
(*   hist that the running transaction started from, view its own         *)
(*   container, wrote whether it changed anything, and maybe the places    *)
(*   an idle connection may be reading from (one, once it has read).       *)
(***************************************************************************)
EXTENDS ContainerSpec

\* Which kind of connection: "container" for a ContainerDb, "managed" for a
\* ManagedStorage, "legacy" for a CitrineConnection on a DbContainer.
CONSTANT Kind

VARIABLES hist, conns, out

tvars0 == <<hist, conns, out>>

\* The other two kinds write over what is there and answer nothing.
Done == R("done", <<>>, <<>>, 0)
PlainDo(c, e) ==
  CASE e.op \in {"create", "update"} ->
         LET w == CWrite(c, e.k, e.v)
         IN  IF w.r.tag = "written" THEN CRes(w.c, Done) ELSE w
    [] e.op = "delete" ->
         IF e.k \notin AllKeys(c) /\ Kind = "legacy" THEN CRes(c, RErr("KeyError"))
         ELSE CRes(CDelete(c, e.k).c, Done)
    [] e.op \in {"read", "item"} -> CRead(c, e.k, <<>>)
    [] e.op = "many" -> CRes(c, R("vals", <<>>, [j \in 1..Len(e.ids) |->
                                     CRead(c, e.ids[j], <<>>).r.vals[1]], 0))
    [] e.op = "badindex" -> CRes(c, RErr("TypeError"))
    [] e.op = "figures" -> CRes(c, RInt(Total(c)))
    [] e.op = "expand" ->
         IF e.n <= 0 THEN CRes(c, RErr("ValueError"))
         ELSE CRes([c EXCEPT !.grps[1].caps = @ \o [j \in 1..e.n |-> 1]], Done)
DoIt(c, e) == IF Kind = "container" THEN Do(c, e) ELSE PlainDo(c, e)

\* Did the operation write anything (perhaps what was there already)?
Wrote(c, e, x) ==
  \/ x.c # c
  \/ e.op = "update" /\ x.r.tag \in {"val", "done"}
  \/ e.op = "create" /\ x.r.tag = "done"

\* A failed removal may count as a change of the mapping it was looked for in.
Touched(e, x) == Kind = "legacy" /\ e.op = "delete" /\ x.r.tag = "KeyError"

Refusals == {"CapacityError", "ObjectOverwriteError"}
            \cup (IF Kind = "container" THEN {} ELSE {"KeyError", "ValueError"})

Writing == {"create", "update", "delete"}
           \cup (IF Kind = "legacy" THEN {"expand"} ELSE {})
Reading == {"read", "item", "many", "figures", "badindex"}

Now == Len(hist)
Stored == hist[Now]

\* <<group, id>> pairs whose object differs between two containers of the
\* same shape.
Differ(a, b) ==
  {p \in UNION {{<<j, k>> : k \in Keys(a.grps[j]) \cup Keys(b.grps[j])} :
                j \in 1..NGrp(a)} :
     LET x == a.grps[p[1]] y == b.grps[p[1]] IN
     \/ (p[2] \in Keys(x)) # (p[2] \in Keys(y))
     \/ p[2] \in Keys(x) /\ x.store[p[2]] # y.store[p[2]]}

\* b's changes since a, on top of c
Rebase(a, b, c) ==
  LET d == Differ(a, b) IN
  [c EXCEPT !.grps = [j \in 1..NGrp(c) |->
    LET mine == {p[2] : p \in {q \in d : q[1] = j}}
        old == c.grps[j].store
        new == b.grps[j].store
    IN [c.grps[j] EXCEPT !.caps = IF b.grps[j].caps = a.grps[j].caps THEN @ ELSE b.grps[j].caps,
                         !.store =
          [k \in (DOMAIN old \ mine) \cup (mine \cap DOMAIN new) |->
             IF k \in mine THEN new[k] ELSE old[k]]]]]

Changes(cn) == Differ(hist[cn.base], cn.view)
\* Somebody else committed a change to an object this transaction changed.
\* An object may be in several groups: a change of it in one of them is seen by
\* a transaction that changes it in another (for sure if it changes only that).
IdsOf(d) == {p[2] : p \in d}
Clash(mine, his) ==
  \/ mine \cap his # {}
  \/ Cardinality(IdsOf(mine)) = 1 /\ IdsOf(mine) \subseteq IdsOf(his)
Clashes(cn) == Clash(Changes(cn), Differ(hist[cn.base], Stored))
\* Different objects may share a storage bucket, which may or may not be
\* merged; with nobody else committing there is nothing to refuse.
MayConflict(cn) == cn.base # Now
MustConflict(cn) == Clashes(cn)

Results(cn) == Rebase(hist[cn.base], cn.view, Stored)

\* The connection is at the newest version again.
Fresh(n, v) ==
  [mode |-> "auto", base |-> n, view |-> v, wrote |-> FALSE, maybe |-> {n},
   read |-> FALSE]

\* Somebody committed version n: a connection that has not read anything yet
\* may read it, one that has keeps to what it reads.
Hears(cn, ns) ==
  IF cn.mode = "auto" /\ ~cn.read THEN [cn EXCEPT !.maybe = @ \cup ns] ELSE cn

\* A transaction that wrote makes a version, even one that looks the same.
Commits(c, cn, mode) ==
  LET v == Results(cn)
      n == IF cn.wrote THEN Now + 1 ELSE Now
      cs == [conns EXCEPT ![c] = [Fresh(n, v) EXCEPT !.mode = mode]]
  IN  /\ ~MustConflict(cn)
      /\ hist' = IF cn.wrote THEN Append(hist, v) ELSE hist
      /\ conns' = [d \in DOMAIN cs |->
           IF d # c THEN Hears(cs[d], {n}) ELSE cs[d]]

Aborts(c, mode) ==
  /\ hist' = hist
  /\ conns' = [conns EXCEPT ![c] = [Fresh(Now, Stored) EXCEPT !.mode = mode]]

-----------------------------------------------------------------------------
\* A connection used outside of a block, with automatic commits.
AutoWrite(c, e) ==
  /\ conns[c].mode = "auto" /\ e.op \in Writing
  /\ LET x == DoIt(Stored, e)
         cn == [Fresh(Now, Stored) EXCEPT !.view = x.c,
                                          !.wrote = Wrote(Stored, e, x)]
     IN  IF x.r.tag \in Refusals
         THEN Aborts(c, "auto") /\ out' = x.r
         ELSE Commits(c, cn, "auto") /\ out' = x.r

\* ... where another connection commits something (o on d) in between.
AutoWriteRaced(c, e, d, o) ==
  /\ conns[c].mode = "auto" /\ e.op \in Writing /\ conns[d].mode = "auto" /\ c # d
  /\ LET x == DoIt(Stored, e)
         y == DoIt(Stored, o)
         mine == Differ(Stored, x.c)
         his == Differ(Stored, y.c)
         both == Rebase(Stored, x.c, y.c)
         his1 == Wrote(Stored, o, y)
         n1 == IF his1 THEN Now + 1 ELSE Now
         n2 == n1 + 1
         h1 == IF his1 THEN Append(hist, y.c) ELSE hist
         fail == /\ hist' = h1
                 /\ out' = RErr("ConflictError")
                 /\ conns' = [q \in DOMAIN conns |->
                      IF q \in {c, d} THEN Fresh(n1, y.c)
                      ELSE Hears(conns[q], {n1})]
         good == /\ hist' = Append(h1, both)
                 /\ out' = x.r
                 /\ conns' = [q \in DOMAIN conns |->
                      IF q = c THEN Fresh(n2, both)
                      ELSE IF q = d THEN [Fresh(n1, y.c) EXCEPT !.maybe = {n1, n2}]
                      ELSE Hears(conns[q], {n1, n2})]
         \* refused, or nothing to do, before anything is committed; the other one then goes on
         late == /\ hist' = h1
                 /\ out' = x.r
                 /\ conns' = [q \in DOMAIN conns |->
                      IF q = c THEN [Fresh(Now, Stored) EXCEPT !.maybe = {Now, n1}]
                      ELSE IF q = d THEN Fresh(n1, y.c)
                      ELSE Hears(conns[q], {n1})]
     IN  /\ IF ~Wrote(Stored, e, x) THEN late
            ELSE IF Clash(mine, his) THEN fail
            ELSE IF ~his1 THEN good
            ELSE good \/ fail

\* Reading outside of a transaction: some version since the last boundary,
\* and from then on the same one until the next boundary.
CouldRead(c, e, r) == {n \in conns[c].maybe : DoIt(hist[n], e).r = r}

AutoReads(c, e, r) ==
  /\ conns[c].mode = "auto" /\ e.op \in Reading
  /\ CouldRead(c, e, r) # {}
  /\ conns' = [conns EXCEPT ![c].maybe = CouldRead(c, e, r),
                              ![c].read = TRUE]
  /\ hist' = hist /\ out' = r

AutoRead(c, e) ==
  \E n \in conns[c].maybe : AutoReads(c, e, DoIt(hist[n], e).r)

Enter(c) ==
  /\ conns[c].mode = "auto"
  /\ conns' = [conns EXCEPT ![c] = [Fresh(Now, Stored) EXCEPT !.mode = "block"]]
  /\ hist' = hist /\ out' = RNone

Off(c) ==
  /\ conns[c].mode = "auto"
  /\ conns' = [conns EXCEPT ![c] = [Fresh(Now, Stored) EXCEPT !.mode = "off"]]
  /\ hist' = hist /\ out' = RNone

\* Operations inside a transaction see and change only its own view.
Inside(c, e) ==
  /\ conns[c].mode \in {"block", "off"} /\ e.op \in Writing \cup Reading
  /\ LET x == DoIt(conns[c].view, e)
     IN  /\ conns' = [conns EXCEPT ![c].view = x.c,
                                   ![c].read = TRUE,
                                   ![c].wrote = @ \/ Wrote(conns[c].view, e, x)
                                                  \/ Touched(e, x)]
         /\ out' = x.r
  /\ hist' = hist

\* The end of a block, or a commit with automatic commits off.
After(c) == IF conns[c].mode = "off" THEN "off" ELSE "auto"

CommitOk(c) ==
  /\ conns[c].mode \in {"block", "off"}
  /\ Commits(c, conns[c], After(c)) /\ out' = RNone

CommitConflicts(c) ==
  /\ conns[c].mode \in {"block", "off"}
  /\ MayConflict(conns[c]) /\ conns[c].wrote
  /\ Aborts(c, After(c)) /\ out' = RErr("ConflictError")

\* The storage refuses the commit.
CommitFails(c) ==
  /\ conns[c].mode \in {"block", "off"}
  /\ Aborts(c, After(c)) /\ out' = RErr("Fault")

AutoWriteFails(c, e) ==
  /\ conns[c].mode = "auto" /\ e.op \in Writing
  /\ Aborts(c, "auto") /\ out' = RErr("Fault")

Abort(c) ==
  /\ conns[c].mode \in {"block", "off"}
  /\ Aborts(c, After(c)) /\ out' = RNone

\* Automatic commits are switched on again when nothing is pending.
On(c) ==
  /\ conns[c].mode = "off" /\ conns[c].view = hist[conns[c].base]
  /\ conns' = [conns EXCEPT ![c].mode = "auto",
       ![c].maybe = IF conns[c].read THEN {conns[c].base} ELSE conns[c].base..Now]
  /\ hist' = hist /\ out' = RNone

\* Asking for the newest state gives up what is not committed.
Refresh(c) ==
  /\ conns[c].mode \in {"auto", "off"}
  /\ Aborts(c, conns[c].mode) /\ out' = RNone

\* Closing a connection and opening another.
Reconnect(c) ==
  /\ conns[c].mode = "auto"
  /\ conns' = [conns EXCEPT ![c] = Fresh(Now, Stored)]
  /\ hist' = hist /\ out' = RNone

\* A connection to an earlier state reads just that state and cannot write.
Past(n, e) ==
  /\ n \in 1..Now
  /\ LET x == DoIt(hist[n], e)
     IN  out' = IF Wrote(hist[n], e, x) THEN RErr("ReadOnlyHistoryError") ELSE x.r
  /\ UNCHANGED <<hist, conns>>

\* Preparing a database that is prepared already.
Setup(c) ==
  /\ conns[c].mode = "auto"
  /\ out' = RNone /\ UNCHANGED <<hist, conns>>

TypeOK ==
  \A c \in DOMAIN conns :
    /\ conns[c].mode \in {"auto", "block", "off"}
    /\ conns[c].base \in 1..Now
    /\ conns[c].maybe \subseteq 1..Now
=============================================================================
