----------------------------- MODULE GroupSpec -----------------------------
(***************************************************************************)
(* One storage group as a state machine: every operation of its interface  *)
(* is an action that changes the contents and leaves a response.           *)
(***************************************************************************)
EXTENDS StoreBase

VARIABLES grp,      \* the group
          resp      \* response of the last operation

gvars == <<grp, resp>>

Becomes(x) == grp' = x.g /\ resp' = x.r

Insert(k, v)        == Becomes(GInsert(grp, k, v))
Update(items)       == Becomes(GUpdate(grp, items))
Pop(k, d)           == Becomes(GPop(grp, k, d))
PopItem             == Becomes(GPopItem(grp))
SetDefault(k, v)    == Becomes(GSetDefault(grp, k, v))
Clear               == Becomes(GClear(grp))
Get(k, d)           == Becomes(GGet(grp, k, d))
HasKey(k)           == Becomes(GHas(grp, k))
SetStrict(b)        == Becomes(GSetStrict(grp, b))
IterKeys(lo, hi)    == Becomes(GIterKeys(grp, lo, hi))
IterValues(lo, hi)  == Becomes(GIterValues(grp, lo, hi))
IterItems(lo, hi)   == Becomes(GIterItems(grp, lo, hi))
ByValue(lo)         == Becomes(GByValue(grp, lo))
MinKey(lo)          == Becomes(GMinKey(grp, lo))
MaxKey(hi)          == Becomes(GMaxKey(grp, hi))

-----------------------------------------------------------------------------
(* What has to hold of every state, and of every step.                     *)

\* Each key is in exactly one collection.
Partitioned ==
  \A k \in Keys(grp) :
    Cardinality({i \in 1..NColl(grp) : k \in CollKeys(grp, i)}) = 1

SizesAddUp ==
  Size(grp) = SumSeq([i \in 1..NColl(grp) |-> CollSize(grp, i)])

WithinCapacity == CapacityOK(grp)
=============================================================================
