----------------------------- MODULE SizingSpec -----------------------------
(***************************************************************************)
(* How many collections new groups and containers get, and how large.      *)
(* A request is answered by one step, so the state is the last answer.     *)
(***************************************************************************)
EXTENDS ContainerSpec

VARIABLES req, ans
svars == <<req, ans>>

DefaultCollectionSize == 5000

Ans(tag, nums, strict) == [tag |-> tag, nums |-> nums, strict |-> strict]
Refuse(name) == Ans(name, <<>>, FALSE)

PrimesFrom(lo, hi) ==
  SetToSortSeq({n \in lo..hi : IsPrime(n)}, LAMBDA a, b : a < b)

Answer(q) ==
  CASE q.op = "collections" -> Ans("int", <<NumCollections(q.cap, q.most)>>, FALSE)
    [] q.op = "next" -> Ans("int", <<NextNumCollections(q.cap, q.most)>>, FALSE)
    [] q.op = "primes" -> Ans("ints", PrimesFrom(q.lo, q.hi), FALSE)
    [] q.op = "container" -> Ans("caps", NewCaps(q.cap, q.most), q.strict)
    [] q.op = "group" ->
         IF q.size = 0 \/ q.most <= 0 THEN Refuse("ValueError")
         ELSE Ans("caps", [j \in 1..q.size |-> q.most], q.strict)
    [] q.op = "custom" ->
         LET places == {q.custom[j][1] : j \in 1..Len(q.custom)} IN
         IF q.size # 0 /\ q.size < Max(places) THEN Refuse("KeyError")
         ELSE LET caps == CustomCaps(q.custom, q.size, q.most) IN
              IF \E j \in 1..Len(caps) : caps[j] <= 0 THEN Refuse("ValueError")
              ELSE Ans("caps", caps, q.strict)

    [] q.op = "given" ->        \* a group of collections that there are already
         IF q.same THEN Refuse("KeyError") ELSE Ans("caps", q.sizes, q.strict)
    [] q.op = "holder" ->       \* a container of groups that there are already
         \* groups of one collection: [size, strict]; the primary is one of
         \* them (its place), or one more, which is then listed first
         LET gs == IF q.primary = 0 THEN <<q.more>> \o q.groups ELSE q.groups
             at == IF q.primary = 0 THEN 1 ELSE q.primary IN
         Ans("holder",
             <<at, Len(gs)>>
               \o [j \in 1..(2 * Len(gs)) |->
                     LET g == gs[(j + 1) \div 2] IN
                     IF j % 2 = 1 THEN g.size
                     ELSE IF j = 2 * at THEN (IF q.strict THEN 1 ELSE 0)
                     ELSE IF g.strict THEN 1 ELSE 0],
             q.strict)
    [] q.op = "db" ->           \* a new database; made again it stays as it is
         Ans("caps", NewCaps(q.cap, DefaultCollectionSize), q.strict)

Ask(q) == req' = q /\ ans' = Answer(q)

-----------------------------------------------------------------------------
(* What has to be true of the answers. *)
SizedRight(q, a) ==
  /\ q.op = "collections" =>
       /\ IsPrime(a.nums[1])
       /\ a.nums[1] * q.most >= q.cap
       /\ \A n \in 1..(a.nums[1] - 1) : IsPrime(n) => n * q.most < q.cap
  /\ q.op = "next" =>
       /\ IsPrime(a.nums[1])
       /\ 2 * a.nums[1] * q.most >= 3 * q.cap
  /\ q.op = "container" =>
       /\ IsPrime(Len(a.nums))
       /\ SumSeq(a.nums) >= q.cap
       /\ \A j \in 1..Len(a.nums) : a.nums[j] = a.nums[1] /\ a.nums[j] <= q.most
  /\ q.op = "db" =>
       /\ IsPrime(Len(a.nums))
       /\ SumSeq(a.nums) >= q.cap
       /\ \A j \in 1..Len(a.nums) : a.nums[j] = a.nums[1] /\ a.nums[j] <= DefaultCollectionSize
  /\ q.op = "custom" /\ a.tag = "caps" =>
       \A j \in 1..Len(q.custom) : a.nums[q.custom[j][1] + 1] = q.custom[j][2]
=============================================================================
