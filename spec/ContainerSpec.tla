--------------------------- MODULE ContainerSpec ---------------------------
(***************************************************************************)
(* A container: a list of groups of which one is the primary.  Objects are *)
(* written to the primary; an object is read from the primary if it is     *)
(* there, else from the first other group in the list that has it.         *)
(*                                                                         *)
(* cont = [grps |-> sequence of groups, prim |-> place of the primary]     *)
(***************************************************************************)
EXTENDS StoreBase

VARIABLES cont, resp

cvars == <<cont, resp>>

-----------------------------------------------------------------------------
(* Sizing.  One counts as a prime number here, as documented.              *)

IsPrime(n) == n >= 1 /\ \A d \in 2..(n - 1) : n % d # 0

RECURSIVE PrimeFrom(_)
PrimeFrom(n) == IF IsPrime(n) THEN n ELSE PrimeFrom(n + 1)

NumCollections(cap, most) == PrimeFrom(CeilDiv(cap, most))

NextNumCollections(size, most) ==
  PrimeFrom(CeilDiv(CeilDiv(3 * size, 2), most))

NewCaps(cap, most) ==
  LET n == NumCollections(cap, most)
  IN  [i \in 1..n |-> IF n * cap < most THEN n * cap ELSE most]

MkGroup(caps, strict) == [caps |-> caps, strict |-> strict, store |-> EmptyStore]
NewGroup(cap, most, strict) == MkGroup(NewCaps(cap, most), strict)

\* Collections defined one by one: custom[i] = <<place, size>>, gaps up to
\* ``size`` are filled with ``most``.
CustomCaps(custom, size, most) ==
  LET places == {custom[i][1] : i \in 1..Len(custom)}
      n == Max({Max(places) + 1, size})
      At(p) == IF p \in places
               THEN custom[CHOOSE i \in 1..Len(custom) : custom[i][1] = p][2]
               ELSE most
  IN  [i \in 1..n |-> At(i - 1)]

CNew(cap, most, strict) == [grps |-> <<NewGroup(cap, most, strict)>>, prim |-> 1]

\* Built from groups: the primary is one of them (p), or comes first (p = 0).
CMake(prim, groups, p, strict) ==
  IF p = 0
  THEN [grps |-> <<[prim EXCEPT !.strict = strict]>> \o groups, prim |-> 1]
  ELSE [grps |-> [groups EXCEPT ![p].strict = strict], prim |-> p]

-----------------------------------------------------------------------------
NGrp(c) == Len(c.grps)
Prim(c) == c.grps[c.prim]
\* The groups other than the primary, in order.
SecIdx(c) == SelectSeq([i \in 1..NGrp(c) |-> i], LAMBDA i : i # c.prim)
Secs(c) == LET s == SecIdx(c) IN [i \in 1..Len(s) |-> c.grps[s[i]]]
ReadOrder(c) == <<Prim(c)>> \o Secs(c)
AllKeys(c) == UNION {Keys(c.grps[i]) : i \in 1..NGrp(c)}
Copies(c, k) == Cardinality({i \in 1..NGrp(c) : k \in Keys(c.grps[i])})
Total(c) == SumSeq([i \in 1..NGrp(c) |-> Size(c.grps[i])])

\* The first of these groups that has k decides.
RECURSIVE FirstOf(_, _)
FirstOf(gs, k) == IF k \in Keys(Head(gs)) THEN Head(gs).store[k]
                  ELSE FirstOf(Tail(gs), k)

ReadVal(c, k) == FirstOf(ReadOrder(c), k)
\* What a user of the container sees.
ViewMap(c) == [k \in AllKeys(c) |-> ReadVal(c, k)]

CRes(c, r) == [c |-> c, r |-> r]

CRead(c, k, d) ==
  CRes(c, RVal(IF k \in AllKeys(c) THEN ReadVal(c, k)
               ELSE IF d = <<>> THEN None ELSE d[1]))

CHas(c, k) == CRes(c, RInt(Copies(c, k)))
CIn(c, k) == CRes(c, RBool(k \in AllKeys(c)))

\* All ids that can be read with their objects; in which order is left open.
RECURSIVE SomeOrder(_)
SomeOrder(ks) == IF ks = {} THEN <<>>
                 ELSE LET k == CHOOSE k \in ks : TRUE IN <<k>> \o SomeOrder(ks \ {k})
CAll(c) ==
  LET ks == SomeOrder(AllKeys(c))
  IN  CRes(c, R("pairs", ks, [j \in 1..Len(ks) |-> ReadVal(c, ks[j])], 0))
SamePairs(r, s) ==
  /\ Len(r.keys) = Len(s.keys) /\ Len(r.vals) = Len(r.keys)
  /\ {<<r.keys[j], r.vals[j]>> : j \in 1..Len(r.keys)}
       = {<<s.keys[j], s.vals[j]>> : j \in 1..Len(s.keys)}

CWrite(c, k, v) ==
  LET p == Prim(c) IN
  IF k \in Keys(p)
  THEN CRes([c EXCEPT !.grps[c.prim].store = Put(@, k, v)], R("written", <<>>, <<>>, 0))
  ELSE IF ~Fits(p, {k}) THEN CRes(c, RErr("CapacityError"))
  ELSE CRes([c EXCEPT !.grps[c.prim].store = Put(@, k, v)], R("written", <<>>, <<>>, 0))

CDelete(c, k) ==
  LET had == SelectSeq(c.grps, LAMBDA g : k \in Keys(g))
  IN  CRes([c EXCEPT !.grps = [i \in 1..NGrp(c) |->
              [c.grps[i] EXCEPT !.store = Without(@, {k})]]],
           R("deleted", <<>>, [i \in 1..Len(had) |-> had[i].store[k]], 0))

CSetStrict(c, b) == CRes([c EXCEPT !.grps[c.prim].strict = b], RNone)

-----------------------------------------------------------------------------
(* Merging groups into the primary.  src are places in the list, ordered.  *)

Sources(c, src) == [i \in 1..Len(src) |-> c.grps[src[i]]]

Merged(c, src) ==
  LET gs == <<Prim(c)>> \o Sources(c, src)
      ks == UNION {Keys(gs[i]) : i \in 1..Len(gs)}
  IN  [k \in ks |-> FirstOf(gs, k)]

MergeFits(c, src) ==
  Fits(Prim(c), UNION {Keys(c.grps[src[i]]) : i \in 1..Len(src)} \ Keys(Prim(c)))

\* The result of a merge that is not refused.
MergeDone(c, src, transfer) ==
  LET filled == [c EXCEPT !.grps[c.prim].store = Merged(c, src)]
      gone == {src[i] : i \in 1..Len(src)}
      keep == SelectSeq([i \in 1..NGrp(c) |-> i], LAMBDA i : i \notin gone)
      at(p) == CHOOSE i \in 1..Len(keep) : keep[i] = p
  IN  IF transfer
      THEN [grps |-> [i \in 1..Len(keep) |-> filled.grps[keep[i]]],
            prim |-> at(c.prim)]
      ELSE filled

\* A merge that failed may have got anywhere, as long as nothing is lost.
MergeHalfway(before, after, src, transfer) ==
  /\ NGrp(after) = NGrp(before) /\ after.prim = before.prim
  /\ \A i \in 1..NGrp(before) :
       /\ after.grps[i].caps = before.grps[i].caps
       /\ after.grps[i].strict = before.grps[i].strict
       /\ (i # before.prim /\ ~(transfer /\ i \in {src[j] : j \in 1..Len(src)}))
             => after.grps[i].store = before.grps[i].store
       /\ i # before.prim =>
            \A k \in Keys(after.grps[i]) :
              /\ k \in Keys(before.grps[i])
              /\ after.grps[i].store[k] = before.grps[i].store[k]
  /\ Keys(Prim(before)) \subseteq Keys(Prim(after))
  /\ ViewMap(after) = ViewMap(before)

\* Reported as removed: the emptied groups, in order.
Removed(c, src, transfer) ==
  IF transfer THEN R("groups", <<>>, <<>>, Len(src)) ELSE R("groups", <<>>, <<>>, 0)

CCondense(c, transfer) ==
  LET src == SecIdx(c)
  IN  IF ~MergeFits(c, src) THEN CRes(c, RErr("CapacityError"))
      ELSE CRes(MergeDone(c, src, transfer), Removed(c, src, transfer))

\* The new, empty primary comes first, the old one next.
Grown(c, cap, most) ==
  [grps |-> <<NewGroup(cap, most, Prim(c).strict)>> \o ReadOrder(c), prim |-> 1]

ResizeSources(g, condense) ==
  IF condense THEN [i \in 1..(NGrp(g) - 1) |-> i + 1] ELSE <<2>>

CResize(c, cap, most, condense, transfer) ==
  IF cap < Total(c) THEN CRes(c, RErr("ValueError"))
  ELSE LET g == Grown(c, cap, most)
           src == ResizeSources(g, condense)
       IN  IF ~MergeFits(g, src) THEN CRes(g, RErr("CapacityError"))
           ELSE CRes(MergeDone(g, src, transfer), Removed(g, src, transfer))

-----------------------------------------------------------------------------
Becomes(x) == cont' = x.c /\ resp' = x.r

Read(k, d)     == Becomes(CRead(cont, k, d))
Has(k)         == Becomes(CHas(cont, k))
In(k)          == Becomes(CIn(cont, k))
All            == Becomes(CAll(cont))
Write(k, v)    == Becomes(CWrite(cont, k, v))
Delete(k)      == Becomes(CDelete(cont, k))
SetStrict(b)   == Becomes(CSetStrict(cont, b))

\* Condense and Resize may fail half way; see MergeHalfway.
CondenseFails(transfer, after) ==
  /\ CCondense(cont, transfer).r.tag = "CapacityError"
  /\ MergeHalfway(cont, after, SecIdx(cont), transfer)
  /\ cont' = after /\ resp' = RErr("CapacityError")

Condense(transfer) ==
  /\ CCondense(cont, transfer).r.tag # "CapacityError"
  /\ Becomes(CCondense(cont, transfer))

ResizeFails(cap, most, condense, transfer, after) ==
  /\ CResize(cont, cap, most, condense, transfer).r.tag = "CapacityError"
  /\ LET g == Grown(cont, cap, most)
     IN  MergeHalfway(g, after, ResizeSources(g, condense), transfer)
  /\ cont' = after /\ resp' = RErr("CapacityError")

Resize(cap, most, condense, transfer) ==
  /\ CResize(cont, cap, most, condense, transfer).r.tag # "CapacityError"
  /\ Becomes(CResize(cont, cap, most, condense, transfer))

-----------------------------------------------------------------------------
(* Figures *)
Figures(c) ==
  [size |-> Total(c),
   max_size |-> SumSeq([i \in 1..NGrp(c) |-> MaxSize(c.grps[i])]),
   capacity |-> MaxSize(Prim(c)),
   used |-> Size(Prim(c)),
   status |-> GStatus(Prim(c)),
   strict |-> Prim(c).strict]
-----------------------------------------------------------------------------
(* The operations of a connection to a container.                          *)

\* Single operations on a container: what they do and what they return.
Missing(c, ids) == \A j \in 1..Len(ids) : ids[j] \notin AllKeys(c)

Do(c, e) ==
  CASE e.op = "create" ->
         IF e.k \in AllKeys(c) THEN CRes(c, RErr("ObjectOverwriteError"))
         ELSE LET w == CWrite(c, e.k, e.v)
              IN  IF w.r.tag = "written" THEN CRes(w.c, R("done", <<>>, <<>>, 0)) ELSE w
    [] e.op = "update" ->
         LET w == CWrite(c, e.k, e.v)
         IN  IF w.r.tag = "written" THEN CRes(w.c, CRead(c, e.k, <<>>).r) ELSE w
    [] e.op = "delete" -> CDelete(c, e.k)
    [] e.op = "read" -> CRead(c, e.k, e.d)
    [] e.op = "item" ->
         IF e.k \in AllKeys(c) THEN CRead(c, e.k, <<>>)
         ELSE CRes(c, RErr("KeyError"))
    [] e.op = "many" ->
         IF Missing(c, e.ids) THEN CRes(c, RErr("KeyError"))
         ELSE CRes(c, R("vals", <<>>, [j \in 1..Len(e.ids) |->
                          CRead(c, e.ids[j], <<>>).r.vals[1]], 0))
    [] e.op = "badindex" -> CRes(c, RErr("IndexError"))
    [] e.op = "figures" ->
         CRes(c, R("figures", <<>>, <<>>,
                   Figures(c).used * 1000000 + Figures(c).capacity * 1000
                     + Figures(c).status))
=============================================================================
