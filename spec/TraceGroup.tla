----------------------------- MODULE TraceGroup -----------------------------
(* Judges traces recorded from real groups (and single collections). *)
EXTENDS GroupSpec, TraceBase

CONSTANT MODE            \* "full", or "metrics" for the reported figures

VARIABLES t, i, verdict

tvars == <<gvars, t, i, verdict>>

Ev == Traces[t].ev

Init ==
  /\ t \in 1..Len(Traces)
  /\ i = 1
  /\ verdict = "ok"
  /\ grp = [caps |-> Traces[t].cfg.caps, strict |-> Traces[t].cfg.strict,
            store |-> EmptyStore]
  /\ resp = RNone

Take(e) ==
  CASE e.op = "insert"     -> Insert(e.k, e.v)
    [] e.op = "update"     -> Update(e.items)
    [] e.op = "pop"        -> Pop(e.k, e.d)
    [] e.op = "popitem"    -> PopItem
    [] e.op = "setdefault" ->
         IF e.k \notin Keys(grp) /\ RoomInFullGroup(grp, e.k)
              /\ e.r.tag # "CapacityError"
         THEN /\ grp' = [grp EXCEPT !.store = Put(@, e.k, e.v)]
              /\ resp' = RVal(e.v)
         ELSE SetDefault(e.k, e.v)
    [] e.op = "clear"      -> Clear
    [] e.op = "get"        -> Get(e.k, e.d)
    [] e.op = "has_key"    -> HasKey(e.k)
    [] e.op = "set_strict" -> SetStrict(e.b)
    [] e.op = "iterkeys"   -> IterKeys(e.lo, e.hi)
    [] e.op = "itervalues" -> IterValues(e.lo, e.hi)
    [] e.op = "iteritems"  -> IterItems(e.lo, e.hi)
    [] e.op = "byValue"    -> ByValue(e.lo)
    [] e.op = "minKey"     -> MinKey(e.lo)
    [] e.op = "maxKey"     -> MaxKey(e.hi)
    [] e.op \in {"keys", "values", "items", "observe"} ->
         grp' = grp /\ resp' = RNone

Count(s, x) == Cardinality({j \in 1..Len(s) : s[j] = x})

\* The views promise each item once, in no particular order.
ViewOK(e) ==
  CASE e.op = "keys" ->
         /\ e.r.tag = "keys"
         /\ Len(e.r.keys) = Size(grp)
         /\ {e.r.keys[j] : j \in 1..Len(e.r.keys)} = Keys(grp)
    [] e.op = "items" ->
         /\ e.r.tag = "items"
         /\ Len(e.r.keys) = Size(grp)
         /\ {<<e.r.keys[j], e.r.vals[j]>> : j \in 1..Len(e.r.keys)}
              = {<<k, grp.store[k]>> : k \in Keys(grp)}
    [] e.op = "values" ->
         /\ e.r.tag = "vals"
         /\ Len(e.r.vals) = Size(grp)
         /\ \A k \in Keys(grp) :
              Count(e.r.vals, grp.store[k])
                = Cardinality({j \in Keys(grp) : grp.store[j] = grp.store[k]})
    [] OTHER -> TRUE

RespOK(e) ==
  IF e.op = "observe" THEN TRUE
  ELSE IF e.op \in {"keys", "values", "items"} THEN ViewOK(e)
  ELSE e.r.tag = resp'.tag /\ e.r = resp'

\* What the collections of the real group hold, one sequence of <<key, value>>
\* per collection, against the specified contents and their places.
ContentsOK(e) ==
  ~e.ck \/
  /\ Len(e.obs) = NColl(grp')
  /\ \A c \in 1..NColl(grp') :
       e.obs[c] = ItemSeq(grp'.store, CollKeys(grp', c))

MetricsOK(g, m) ==
  /\ m.size = Size(g)
  /\ m.max_size = MaxSize(g)
  /\ m.max_collection_size = Max({g.caps[c] : c \in 1..NColl(g)})
  /\ SameRatio(m.usage, <<Size(g), MaxSize(g)>>)
  /\ m.status = GStatus(g)
  /\ m.strict = g.strict
  /\ \A c \in 1..NColl(g) :
       /\ m.colls[c].size = CollSize(g, c)
       /\ m.colls[c].max_size = g.caps[c]
       /\ SameRatio(m.colls[c].usage, <<CollSize(g, c), g.caps[c]>>)
       /\ m.colls[c].status = Level(CollSize(g, c), g.caps[c])
       /\ m.colls[c].strict = g.strict
       /\ SameRatio(m.usages[c], <<CollSize(g, c), g.caps[c]>>)
  /\ \E c \in 1..NColl(g) :
       SameRatio(m.highest, <<CollSize(g, c), g.caps[c]>>)
  /\ \E c \in 1..NColl(g) :
       SameRatio(m.lowest, <<CollSize(g, c), g.caps[c]>>)
  /\ \A c \in 1..NColl(g) :
       /\ RatioLE(<<CollSize(g, c), g.caps[c]>>, m.highest)
       /\ RatioLE(m.lowest, <<CollSize(g, c), g.caps[c]>>)

\* In "metrics" mode the contents are whatever was observed.
Observed(e) ==
  [grp EXCEPT !.store = PutAll(EmptyStore, FlattenSeq(e.obs)),
              !.strict = IF e.op = "set_strict" THEN e.b ELSE @]

Judge(e) ==
  IF MODE = "metrics"
  THEN IF MetricsOK(grp', e.m) THEN "ok" ELSE "figures after " \o e.op
  ELSE IF ~RespOK(e) THEN "response of " \o e.op
  ELSE IF ~ContentsOK(e) THEN "contents after " \o e.op
  ELSE "ok"

Next ==
  /\ i <= Len(Ev)
  /\ verdict = "ok"
  /\ IF MODE = "metrics"
     THEN grp' = Observed(Ev[i]) /\ resp' = RNone
     ELSE Take(Ev[i])
  /\ verdict' = Judge(Ev[i])
  /\ i' = i + 1
  /\ t' = t
  /\ verdict' # "ok" => Report(t, i, verdict')
  /\ (verdict' = "ok" /\ i = Len(Ev)) => Report(t, 0, "ok")

Spec == Init /\ [][Next]_tvars
=============================================================================
