------------------------------ MODULE TraceTxn ------------------------------
(* Judges traces recorded from real connections. *)
EXTENDS TxnSpec, TraceBase

\* marks[j] = the place in hist that was stored before event j
VARIABLES t, i, verdict, marks
tvars == <<tvars0, cvars, t, i, verdict, marks>>

Ev == Traces[t].ev
Cfg == Traces[t].cfg

ToStore(items) == PutAll(EmptyStore, items)
ToGroup(g) == [caps |-> g.caps, strict |-> g.strict, store |-> ToStore(g.items)]
ToCont(o) == [grps |-> [j \in 1..Len(o.grps) |-> ToGroup(o.grps[j])],
              prim |-> o.prim]

Started == ToCont(Cfg.start)

Init ==
  /\ t \in 1..Len(Traces)
  /\ i = 1 /\ verdict = "ok" /\ marks = <<1>>
  /\ hist = <<Started>>
  /\ conns = [c \in 1..Cfg.conns |-> Fresh(1, Started)]
  /\ out = RNone
  /\ cont = 0 /\ resp = 0

SameBag(a, b) ==
  /\ Len(a) = Len(b)
  /\ \A j \in 1..Len(a) :
       Cardinality({n \in 1..Len(a) : a[n] = a[j]})
         = Cardinality({n \in 1..Len(b) : b[n] = a[j]})
SameResp(r, s) ==
  /\ r.tag = s.tag
  /\ IF r.tag = "deleted" THEN SameBag(r.vals, s.vals) ELSE r = s

\* Which action explains the event, given how it ended?
Act(e) ==
  LET c == e.c
      tag == e.r.tag
      hurt == "fault" \in DOMAIN e
  IN
  CASE e.op \in Writing /\ conns[c].mode = "auto" ->
         IF tag = "Fault" THEN hurt /\ AutoWriteFails(c, e) ELSE AutoWrite(c, e)
    [] e.op = "raced" -> /\ AutoWriteRaced(c, e.e, e.d, e.o)
                         /\ (tag = "ConflictError") = (out'.tag = "ConflictError")
    [] e.op \in Reading /\ conns[c].mode = "auto" -> AutoReads(c, e, e.r)
    [] e.op \in Writing \cup Reading /\ conns[c].mode # "auto" -> Inside(c, e)
    [] e.op = "enter" -> Enter(c)
    [] e.op = "exit" ->
         /\ conns[c].mode = "block"
         /\ IF e.how = "raise" THEN Abort(c)
            ELSE IF tag = "Fault" THEN hurt /\ CommitFails(c)
            ELSE IF tag = "ConflictError" THEN CommitConflicts(c)
            ELSE CommitOk(c)
    [] e.op = "off" -> Off(c)
    [] e.op = "on" -> On(c)
    [] e.op = "commit" ->
         /\ conns[c].mode = "off"
         /\ IF tag = "Fault" THEN hurt /\ CommitFails(c)
            ELSE IF tag = "ConflictError" THEN CommitConflicts(c)
            ELSE CommitOk(c)
    [] e.op = "abort" -> conns[c].mode = "off" /\ Abort(c)
    [] e.op = "refresh" -> Refresh(c)
    [] e.op = "setup" -> Setup(e.c)
    [] e.op = "past" -> Past(marks[e.n], e.e)
    [] e.op = "reconnect" -> Reconnect(c)

AutoFlags(e) ==
  \A c \in DOMAIN conns' : e.auto[c] = (conns'[c].mode = "auto")

Judge(e) ==
  IF ~SameResp(e.r, out') THEN "response of " \o e.op
  ELSE IF ToCont(e.db) # hist'[Len(hist')] THEN "stored contents after " \o e.op
  ELSE IF ("disk" \in DOMAIN e) /\ ToCont(e.disk) # hist'[Len(hist')]
       THEN "reopened contents after " \o e.op
  ELSE IF ~AutoFlags(e) THEN "automatic commits after " \o e.op
  ELSE "ok"

Next ==
  /\ i <= Len(Ev) /\ verdict = "ok"
  /\ LET e == Ev[i] IN
     IF ENABLED Act(e)
     THEN Act(e) /\ verdict' = Judge(e)
     ELSE /\ UNCHANGED tvars0 /\ verdict' = "outcome of " \o e.op
  /\ marks' = Append(marks, Len(hist'))
  /\ i' = i + 1 /\ t' = t /\ UNCHANGED cvars
  /\ verdict' # "ok" => Report(t, i, verdict')
  /\ (verdict' = "ok" /\ i = Len(Ev)) => Report(t, 0, "ok")

Spec == Init /\ [][Next]_tvars
=============================================================================
