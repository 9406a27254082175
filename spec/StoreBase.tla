----------------------------- MODULE StoreBase -----------------------------
(***************************************************************************)
(* Keys, values, responses, and the behaviour of one storage group: a      *)
(* dictionary split over several collections of limited size.              *)
(*                                                                         *)
(* A key is the sequence of the UTF-8 bytes of an id; the order of ids is  *)
(* the lexicographic order of their bytes.  A value is a record of a type  *)
(* name and a number, so that 0, "", FALSE, NULL and [] stay distinct.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Functions

RECURSIVE LT(_, _)
LT(a, b) ==
  IF b = <<>> THEN FALSE
  ELSE IF a = <<>> THEN TRUE
  ELSE IF a[1] # b[1] THEN a[1] < b[1]
  ELSE LT(Tail(a), Tail(b))

LE(a, b) == a = b \/ LT(a, b)

\* The number a key stands for, read as a big-endian integer, modulo n.
Route(k, n) == FoldLeft(LAMBDA acc, b : (acc * 256 + b) % n, 0, k)

None == [t |-> "none", n |-> 0]

\* Every response has the same shape, so that any two can be compared.
R(tag, keys, vals, num) ==
  [tag |-> tag, keys |-> keys, vals |-> vals, num |-> num]
RNone == R("none", <<>>, <<>>, 0)
RVal(v) == R("val", <<>>, <<v>>, 0)
RKey(k) == R("key", <<k>>, <<>>, 0)
RItem(k, v) == R("item", <<k>>, <<v>>, 0)
RInt(i) == R("int", <<>>, <<>>, i)
RBool(b) == R("bool", <<>>, <<>>, IF b THEN 1 ELSE 0)
RErr(name) == R(name, <<>>, <<>>, 0)

EmptyStore == <<>>              \* the function with an empty domain

Put(store, k, v) == (k :> v) @@ store
Without(store, ks) == Restrict(store, DOMAIN store \ ks)

RECURSIVE PutAll(_, _)
PutAll(store, items) ==
  IF items = <<>> THEN store
  ELSE PutAll(Put(store, Head(items)[1], Head(items)[2]), Tail(items))

-----------------------------------------------------------------------------
(* A group is [caps |-> sizes of its collections, strict |-> BOOLEAN,      *)
(* store |-> its contents].                                                *)

Keys(g) == DOMAIN g.store
Size(g) == Cardinality(Keys(g))
NColl(g) == Len(g.caps)
CollOf(g, k) == Route(k, NColl(g)) + 1
CollKeys(g, i) == {k \in Keys(g) : CollOf(g, k) = i}
CollSize(g, i) == Cardinality(CollKeys(g, i))
SumSeq(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
MaxSize(g) == SumSeq(g.caps)
KeySeq(S) == SetToSortSeq(S, LT)
ItemSeq(store, S) ==
  LET ks == KeySeq(S) IN [i \in 1..Len(ks) |-> <<ks[i], store[ks[i]]>>]

\* May these new keys be added?
Fits(g, new) ==
  \/ new = {}
  \/ ~g.strict
  \/ /\ Size(g) + Cardinality(new) <= MaxSize(g)
     /\ \A i \in {CollOf(g, k) : k \in new} :
          CollSize(g, i) + Cardinality({k \in new : CollOf(g, k) = i})
            <= g.caps[i]

\* A strict group that as a whole is over its limit, because some collection
\* was overfilled while strict mode was off, refuses new ids by insert and
\* update even where there is room. Whether setdefault does is left open.
RoomInFullGroup(g, k) ==
  /\ g.strict /\ ~Fits(g, {k})
  /\ CollSize(g, CollOf(g, k)) < g.caps[CollOf(g, k)]

CapacityOK(g) ==
  g.strict => \A i \in 1..NColl(g) : CollSize(g, i) <= g.caps[i]

Res(g, r) == [g |-> g, r |-> r]

GInsert(g, k, v) ==
  IF k \in Keys(g) THEN Res(g, RInt(0))
  ELSE IF ~Fits(g, {k}) THEN Res(g, RErr("CapacityError"))
  ELSE Res([g EXCEPT !.store = Put(@, k, v)], RInt(1))

GUpdate(g, items) ==
  LET new == {items[i][1] : i \in 1..Len(items)} \ Keys(g)
  IN  IF ~Fits(g, new) THEN Res(g, RErr("CapacityError"))
      ELSE Res([g EXCEPT !.store = PutAll(@, items)], RNone)

\* d is <<>> for no default or <<v>>
GPop(g, k, d) ==
  IF k \in Keys(g) THEN Res([g EXCEPT !.store = Without(@, {k})],
                            RVal(g.store[k]))
  ELSE IF d = <<>> THEN Res(g, RErr("KeyError"))
  ELSE Res(g, RVal(d[1]))

MinOf(S) == CHOOSE k \in S : \A j \in S : LE(k, j)
MaxOf(S) == CHOOSE k \in S : \A j \in S : LE(j, k)

GPopItem(g) ==
  IF Keys(g) = {} THEN Res(g, RErr("EmptyError"))
  ELSE LET k == MinOf(Keys(g))
       IN  Res([g EXCEPT !.store = Without(@, {k})], RItem(k, g.store[k]))

GSetDefault(g, k, v) ==
  IF k \in Keys(g) THEN Res(g, RVal(g.store[k]))
  ELSE IF ~Fits(g, {k}) THEN Res(g, RErr("CapacityError"))
  ELSE Res([g EXCEPT !.store = Put(@, k, v)], RVal(v))

GClear(g) == Res([g EXCEPT !.store = EmptyStore], RNone)

GGet(g, k, d) ==
  Res(g, RVal(IF k \in Keys(g) THEN g.store[k]
              ELSE IF d = <<>> THEN None ELSE d[1]))

GHas(g, k) == Res(g, RBool(k \in Keys(g)))

GSetStrict(g, b) == Res([g EXCEPT !.strict = b], RNone)

\* Bounds lo and hi are <<>> for none or <<key>>.
InRange(S, lo, hi) ==
  {k \in S : (lo = <<>> \/ LE(lo[1], k)) /\ (hi = <<>> \/ LE(k, hi[1]))}

GIterKeys(g, lo, hi) ==
  Res(g, R("keys", KeySeq(InRange(Keys(g), lo, hi)), <<>>, 0))

GIterValues(g, lo, hi) ==
  LET ks == KeySeq(InRange(Keys(g), lo, hi))
  IN  Res(g, R("vals", <<>>, [i \in 1..Len(ks) |-> g.store[ks[i]]], 0))

GIterItems(g, lo, hi) ==
  LET ks == KeySeq(InRange(Keys(g), lo, hi))
  IN  Res(g, R("items", ks, [i \in 1..Len(ks) |-> g.store[ks[i]]], 0))

\* byValue compares values; it is only used on groups of numbers.
GByValue(g, lo) ==
  LET S  == {k \in Keys(g) : lo = <<>> \/ g.store[k].n >= lo[1].n}
      Gt(a, b) == \/ g.store[a].n > g.store[b].n
                  \/ g.store[a].n = g.store[b].n /\ LT(b, a)
      ks == SetToSortSeq(S, Gt)
  IN  Res(g, R("items", ks, [i \in 1..Len(ks) |-> g.store[ks[i]]], 0))

GMinKey(g, lo) ==
  LET S == InRange(Keys(g), lo, <<>>)
  IN  Res(g, IF S = {} THEN RErr("EmptyError") ELSE RKey(MinOf(S)))

GMaxKey(g, hi) ==
  LET S == InRange(Keys(g), <<>>, hi)
  IN  Res(g, IF S = {} THEN RErr("EmptyError") ELSE RKey(MaxOf(S)))

-----------------------------------------------------------------------------
(* Reported figures.  A usage is a fraction <<numerator, denominator>>.    *)

Levels == {0, 60, 70, 80, 90}
CeilDiv(a, b) == (a + b - 1) \div b
Level(size, cap) ==
  Max({l \in Levels : l <= CeilDiv(100 * size, cap)})
SameRatio(p, q) == p[1] * q[2] = q[1] * p[2]
RatioLE(p, q) == p[1] * q[2] <= q[1] * p[2]

GStatus(g) == Max({Level(CollSize(g, i), g.caps[i]) : i \in 1..NColl(g)})
=============================================================================
