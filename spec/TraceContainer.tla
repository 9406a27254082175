--------------------------- MODULE TraceContainer ---------------------------
(* Judges traces recorded from real containers. *)
EXTENDS ContainerSpec, TraceBase

CONSTANT MODE      \* "full", "merge" (only resize and condense), "crash",
                   \* "figures"

VARIABLES t, i, verdict

tvars == <<cvars, t, i, verdict>>

Ev == Traces[t].ev
Cfg == Traces[t].cfg

ToStore(items) == PutAll(EmptyStore, items)
ToGroup(g) == [caps |-> g.caps, strict |-> g.strict, store |-> ToStore(g.items)]
ToCont(o) == [grps |-> [j \in 1..Len(o.grps) |-> ToGroup(o.grps[j])],
              prim |-> o.prim]

\* No id twice in a group, and a primary in the list.
WellFormed(o) ==
  /\ o.prim \in 1..Len(o.grps)
  /\ \A j \in 1..Len(o.grps) :
       Cardinality({o.grps[j].items[n][1] : n \in 1..Len(o.grps[j].items)})
         = Len(o.grps[j].items)

Started ==
  IF Cfg.how = "new" THEN CNew(Cfg.cap, Cfg.most, Cfg.strict)
  ELSE CMake(IF Cfg.p = 0 THEN ToGroup(Cfg.prim) ELSE [caps |-> <<1>>],
             [j \in 1..Len(Cfg.groups) |-> ToGroup(Cfg.groups[j])],
             Cfg.p, Cfg.strict)

Init ==
  /\ t \in 1..Len(Traces)
  /\ i = 1
  /\ verdict = "ok"
  /\ cont = Started
  /\ resp = RNone

\* Condense and resize have several outcomes; the observation picks one.
Take(e) ==
  CASE e.op = "start"      -> cont' = cont /\ resp' = RNone
    [] e.op = "observe"    -> cont' = cont /\ resp' = RNone
    [] e.op = "write"      -> Write(e.k, e.v)
    [] e.op = "read"       -> Read(e.k, e.d)
    [] e.op = "has"        -> Has(e.k)
    [] e.op = "in"         -> In(e.k)
    [] e.op = "all"        -> All
    [] e.op = "delete"     -> Delete(e.k)
    [] e.op = "set_strict" -> SetStrict(e.b)
    [] e.op = "condense"   -> \/ Condense(e.transfer)
                              \/ CondenseFails(e.transfer, ToCont(e.obs))
    [] e.op = "resize"     -> \/ Resize(e.cap, e.most, e.condense, e.transfer)
                              \/ ResizeFails(e.cap, e.most, e.condense,
                                             e.transfer, ToCont(e.obs))

\* A fault may stop a merge anywhere; so may a crash.
Source(e, c) ==
  IF e.op = "resize" THEN ResizeSources(Grown(c, e.cap, e.most), e.condense)
  ELSE SecIdx(c)
Base(e, c) == IF e.op = "resize" THEN Grown(c, e.cap, e.most) ELSE c
Finished(e, c) ==
  IF e.op = "resize" THEN CResize(c, e.cap, e.most, e.condense, e.transfer).c
  ELSE CCondense(c, e.transfer).c

Along(e, c, x) ==
  \/ x = c
  \/ MergeHalfway(Base(e, c), x, Source(e, c), e.transfer)
  \/ (MergeFits(Base(e, c), Source(e, c)) /\ x = Finished(e, c))

\* At every crash point all objects are there, readable, and condensing what
\* was found ends with exactly these objects in one group.
CrashOK(e, c, x) ==
  /\ WellFormed(x.obs) /\ WellFormed(x.rec)
  /\ Along(e, c, ToCont(x.obs))
  /\ {<<x.reads[j][1], x.reads[j][2]>> : j \in 1..Len(x.reads)}
       = {<<k, ViewMap(c)[k]>> : k \in AllKeys(c)}
  /\ ToCont(x.rec) = CCondense(CSetStrict(ToCont(x.obs), FALSE).c, TRUE).c

CrashesOK(e) ==
  "crashes" \in DOMAIN e =>
    \A j \in 1..Len(e.crashes) : CrashOK(e, cont, e.crashes[j])

Faulty(e) == "fault" \in DOMAIN e /\ e.r.tag = "Fault"
\* A refused commit: what is in memory follows what is stored.
FaultOK(e, c) ==
  /\ WellFormed(e.obs)
  /\ Along(e, c, ToCont(e.obs))
  /\ e.stored = e.obs

SameBag(a, b) ==
  /\ Len(a) = Len(b)
  /\ \A j \in 1..Len(a) :
       Cardinality({n \in 1..Len(a) : a[n] = a[j]})
         = Cardinality({n \in 1..Len(b) : b[n] = a[j]})

RespOK(e) ==
  CASE e.op \in {"start", "observe"} -> TRUE
    [] e.op = "delete" -> e.r.tag = resp'.tag /\ SameBag(e.r.vals, resp'.vals)
    [] e.op = "all" -> e.r.tag = resp'.tag /\ SamePairs(e.r, resp')
    [] OTHER -> e.r.tag = resp'.tag /\ e.r = resp'

FiguresOK(c, f) ==
  /\ \A n \in {"size", "max_size", "capacity", "used", "status", "strict"} :
       f[n] = Figures(c)[n]
  /\ SameRatio(f.usage, <<Size(Prim(c)), MaxSize(Prim(c))>>)
  /\ Len(f.groups) = NGrp(c)
  /\ \A j \in 1..NGrp(c) :
       /\ f.groups[j].size = Size(c.grps[j])
       /\ f.groups[j].max_size = MaxSize(c.grps[j])

Judge(e) ==
 IF MODE = "figures"
  THEN IF "fig" \in DOMAIN e => FiguresOK(cont', e.fig) THEN "ok"
       ELSE "figures after " \o e.op
  ELSE IF ~RespOK(e) THEN "response of " \o e.op
  ELSE IF ToCont(e.obs) # cont' THEN "contents after " \o e.op
  ELSE IF ("stored" \in DOMAIN e) /\ e.stored # e.obs
       THEN "stored contents after " \o e.op
  ELSE IF ~CrashesOK(e)
       THEN "crash point of " \o e.op
  ELSE "ok"

\* Is there any outcome of this kind of step that fits the observation?
Possible(e) ==
  CASE e.op = "condense" ->
         \/ CCondense(cont, e.transfer).r.tag # "CapacityError"
         \/ MergeHalfway(cont, ToCont(e.obs), SecIdx(cont), e.transfer)
    [] e.op = "resize" ->
         \/ CResize(cont, e.cap, e.most, e.condense, e.transfer).r.tag # "CapacityError"
         \/ LET g == Grown(cont, e.cap, e.most)
            IN  MergeHalfway(g, ToCont(e.obs), ResizeSources(g, e.condense), e.transfer)
    [] OTHER -> TRUE

Stop(why) ==
  cont' = cont /\ resp' = resp /\ verdict' = why

Step(e) ==
  IF ~WellFormed(e.obs) THEN Stop("groups after " \o e.op)
  ELSE IF \/ MODE = "figures"
          \/ MODE = "merge" /\ e.op \notin {"start", "condense", "resize"}
  THEN \* these take the observation for granted
       /\ cont' = ToCont(e.obs)
       /\ resp' = RNone
       /\ verdict' = IF MODE = "figures" THEN Judge(e) ELSE "ok"
  ELSE IF Faulty(e)
  THEN /\ cont' = ToCont(e.obs)
       /\ resp' = RErr("Fault")
       /\ verdict' = IF ~FaultOK(e, cont) THEN "contents after a failed " \o e.op
                     ELSE IF ~CrashesOK(e)
                     THEN "crash point of a failed " \o e.op ELSE "ok"
  ELSE IF ~Possible(e) THEN Stop("contents after " \o e.op)
  ELSE Take(e) /\ verdict' = Judge(e)

Next ==
  /\ i <= Len(Ev)
  /\ verdict = "ok"
  /\ Step(Ev[i])
  /\ i' = i + 1
  /\ t' = t
  /\ verdict' # "ok" => Report(t, i, verdict')
  /\ (verdict' = "ok" /\ i = Len(Ev)) => Report(t, 0, "ok")

Spec == Init /\ [][Next]_tvars
=============================================================================
