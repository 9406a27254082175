----------------------------- MODULE TraceLife -----------------------------
(* Judges traces recorded from real database files. *)
EXTENDS LifeSpec, TraceBase

VARIABLES t, i, verdict
tvars == <<lvars, cvars, t, i, verdict>>

Ev == Traces[t].ev
Cfg == Traces[t].cfg

ToGroup(g) == [caps |-> g.caps, strict |-> g.strict, store |-> PutAll(EmptyStore, g.items)]
ToCont(o) == [grps |-> [j \in 1..Len(o.grps) |-> ToGroup(o.grps[j])], prim |-> o.prim]
ToDisk(d) ==
  [there |-> d.there, root |-> d.root, extra |-> d.extra,
   cont |-> IF d.root = "container" THEN ToCont(d.cont) ELSE NoCont]

Init ==
  /\ t \in 1..Len(Traces)
  /\ i = 1 /\ verdict = "ok"
  /\ disk = [p \in 1..Cfg.paths |-> Absent]
  /\ open = [h \in 1..Cfg.handles |-> Closed]
  /\ sess = [w \in 1..2 |-> <<>>]
  /\ ans = RNone /\ cont = 0 /\ resp = 0

SameBag(a, b) ==
  /\ Len(a) = Len(b)
  /\ \A j \in 1..Len(a) :
       Cardinality({n \in 1..Len(a) : a[n] = a[j]})
         = Cardinality({n \in 1..Len(b) : b[n] = a[j]})
SameResp(r, s) ==
  /\ r.tag = s.tag
  /\ IF r.tag = "deleted" THEN SameBag(r.vals, s.vals) ELSE r = s

Plain(e) ==
  CASE e.op = "plant" -> Plant(e.p, e.root, e.extra)
    [] e.op = "make" -> Create(e.p, e.cap, e.strict, e.fresh)
    [] e.op = "new" -> New(e.h, e.p, e.cap, e.strict, e.fresh)
    [] e.op = "open" -> Open(e.h, e.p)
    [] e.op = "look" -> LookAt(e.h, e.p, e.how, e.fresh)
    [] e.op = "taken" -> OpenTaken(e.h, e.p)
    [] e.op = "memory" -> OpenMemory(e.h)
    [] e.op = "close" -> Idle(e.h) /\ Close(e.h)
    [] e.op = "closeall" -> (\A h \in DOMAIN open : Idle(h)) /\ CloseAll
    [] e.op = "on" -> On(e.h, e.e)
    [] e.op = "setstrict" -> DbStrict(e.h, e.b)
    [] e.op = "strict" -> Strict(e.h)
    [] e.op = "block" -> Block(e.h, e.steps, e.how)

Act(e) ==
  CASE e.op = "enter" -> Enter(e.w, e.h)
    [] e.op = "leave" -> Leave(e.w)
    [] e.op = "say" -> Say(e.w, e.d, e.e)
    [] OTHER -> Plain(e) /\ UNCHANGED sess

Judge(e) ==
  IF ~SameResp(e.r, ans') THEN "response of " \o e.op
  ELSE IF \E p \in DOMAIN disk' : ToDisk(e.disk[p]) # disk'[p] THEN "files after " \o e.op
  ELSE IF \E h \in DOMAIN open' :
            /\ Live(h)' /\ ToCont(e.mem[h]) # Contents(h)'
       THEN "open databases after " \o e.op
  ELSE IF Cfg.joined /\ (\/ ToSet(e.named) # Registered'
                       \/ Len(e.named) # Cardinality(Registered'))
       THEN "collection after " \o e.op
  ELSE IF \E w \in DOMAIN sess' : e.sess[w] # [d \in DOMAIN sess'[w] |-> TRUE]
       THEN "connections after " \o e.op
  ELSE "ok"

Next ==
  /\ i <= Len(Ev) /\ verdict = "ok"
  /\ LET e == Ev[i] IN
     \* More than one answer may be allowed: the recorded one has to be among them.
     IF ENABLED (Act(e) /\ Judge(e) = "ok")
     THEN Act(e) /\ Judge(e) = "ok" /\ verdict' = "ok"
     ELSE IF ENABLED Act(e)
     THEN Act(e) /\ verdict' = Judge(e)
     ELSE /\ UNCHANGED lvars /\ verdict' = "outcome of " \o e.op
  /\ i' = i + 1 /\ t' = t /\ UNCHANGED cvars
  /\ verdict' # "ok" => Report(t, i, verdict')
  /\ (verdict' = "ok" /\ i = Len(Ev)) => Report(t, 0, "ok")

Spec == Init /\ [][Next]_tvars
=============================================================================
