---------------------------- MODULE TraceClient ----------------------------
(* Judges traces recorded from real clients of a real server. *)
EXTENDS ClientSpec, TraceBase

VARIABLES t, i, verdict
tvars == <<clvars, tvars0, cvars, t, i, verdict>>

Ev == Traces[t].ev
Cfg == Traces[t].cfg

ToGroup(g) == [caps |-> g.caps, strict |-> g.strict, store |-> PutAll(EmptyStore, g.items)]
ToCont(o) == [grps |-> [j \in 1..Len(o.grps) |-> ToGroup(o.grps[j])], prim |-> o.prim]

Init ==
  /\ t \in 1..Len(Traces)
  /\ i = 1 /\ verdict = "ok"
  /\ up = TRUE
  /\ srv = [s \in 1..Len(Cfg.start) |->
       IF Cfg.start[s].root = "container" THEN <<ToCont(Cfg.start[s].cont)>> ELSE <<>>]
  /\ cls = [c \in 1..Cfg.clients |-> Away]
  /\ ans = RNone /\ cont = 0 /\ resp = 0
  /\ hist = <<>> /\ conns = 0 /\ out = 0

\* What is in the storage of the client after the event.
Seen(e) == LET d == e.disk[cls[e.c].s]
           IN  IF d.root = "container" THEN ToCont(d.cont) ELSE [grps |-> <<>>, prim |-> 0]

Act(e) ==
  CASE e.op = "start" -> Start
    [] e.op = "stop" -> Stop
    [] e.op = "connect" -> Connect(e.c, e.s, e.ro, e.strict, e.missing, e.sync, e.r)
    [] e.op = "disconnect" -> Disconnect(e.c)
    [] e.op = "all" -> DisconnectAll
    [] e.op = "make" -> Make
    [] e.op = "on" -> On_(e.c, e.e, e.r, Seen(e))
    [] e.op = "block" -> Block(e.c, e.es, e.how, e.r, Seen(e))

Judge(e) ==
  IF ~SameResp(e.r, ans') THEN "response of " \o e.op
  ELSE IF \E s \in DOMAIN srv' :
            \/ (e.disk[s].root = "container") # (srv'[s] # <<>>)
            \/ srv'[s] # <<>> /\ ToCont(e.disk[s].cont) # srv'[s][Len(srv'[s])]
            \/ e.disk[s].extra # Cfg.start[s].extra
       THEN "storages after " \o e.op
  ELSE IF e.threads # Cardinality({c \in DOMAIN cls' : cls'[c].s # 0})
       THEN "network connections after " \o e.op
  ELSE IF Cfg.joined /\ ToSet(e.named) # {c \in DOMAIN cls' : cls'[c].s # 0}
       THEN "collection after " \o e.op
  ELSE "ok"

Next ==
  /\ i <= Len(Ev) /\ verdict = "ok"
  /\ LET e == Ev[i] IN
     IF ENABLED Act(e)
     THEN Act(e) /\ verdict' = Judge(e)
     ELSE /\ UNCHANGED clvars /\ verdict' = "outcome of " \o e.op
  /\ i' = i + 1 /\ t' = t /\ UNCHANGED <<cvars, tvars0>>
  /\ verdict' # "ok" => Report(t, i, verdict')
  /\ (verdict' = "ok" /\ i = Len(Ev)) => Report(t, 0, "ok")

Spec == Init /\ [][Next]_tvars
=============================================================================
