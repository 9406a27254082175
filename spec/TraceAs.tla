------------------------------- MODULE TraceAs -------------------------------
EXTENDS AsSpec, TraceBase
VARIABLES t, i, verdict
tvars == <<avars, t, i, verdict>>
Ev == Traces[t].ev
Init ==
  /\ t \in 1..Len(Traces) /\ i = 1 /\ verdict = "ok"
  /\ objs = <<>> /\ web = <<>> /\ ans = Ok
Act(e) ==
  CASE e.op = "read" -> Read(e.d, e.ctx)
    [] e.op = "new" -> New(e.t, e.m)
    [] e.op = "set" -> Set(e.i, e.n, e.v)
    [] e.op = "write" -> Write2Json(e.i)
    [] e.op = "again" -> Again(e.i)
    [] e.op = "get" -> Get(e.i, e.n)
    [] e.op = "walk" -> Walk(e.i, e.ns)
    [] e.op = "members" -> Members(e.i)
    [] e.op = "publish" -> Publish(e.url, e.d)
    [] e.op = "accept" -> Accept(e.rule, e.v)
    [] e.op = "valid" -> Valid(e.s, e.secure)
\* What the operation may have asked the web for.
Asks(e) ==
  CASE e.op = "get" -> MayAsk(e.i, e.n)
    [] e.op = "walk" -> PathAsks(objs[e.i].o, e.ns)
    [] e.op = "members" -> MayAsk(e.i, "items")
    [] OTHER -> {}
\* Where two values differ, for the report.
RECURSIVE Names(_)
Names(N) == IF N = {} THEN "" ELSE LET n == CHOOSE n \in N : TRUE IN " " \o n \o Names(N \ {n})
RECURSIVE Diff(_, _)
Diff(a, b) ==
  IF Same(a, b) THEN ""
  ELSE IF a.k = "list" /\ b.k = "list" /\ Len(a.l) = Len(b.l) THEN
    LET j == CHOOSE j \in DOMAIN a.l : ~Same(a.l[j], b.l[j])
    IN  "[" \o ToString(j) \o "]" \o Diff(a.l[j], b.l[j])
  ELSE IF a.k = "map" /\ b.k = "map" /\ (\A x \in Range(a.m) : Has(b.m, x[1]))
          /\ (\A x \in Range(b.m) : Has(a.m, x[1])) /\ Len(a.m) = Len(b.m) THEN
    LET x == CHOOSE x \in Range(a.m) : ~Same(x[2], Val(b.m, x[1]))
    IN  "." \o x[1] \o Diff(x[2], Val(b.m, x[1]))
  ELSE IF a.k = "node" /\ b.k = "node" /\ a.t = b.t /\ DOMAIN a.v = DOMAIN b.v THEN
    LET n == CHOOSE n \in DOMAIN a.v : ~Same(a.v[n], b.v[n])
    IN  "." \o n \o Diff(a.v[n], b.v[n])
  ELSE " (" \o a.k \o (IF a.k = "node" THEN " " \o a.t ELSE "")
       \o " expected, " \o b.k \o (IF b.k = "node" THEN " " \o b.t ELSE "") \o ")"
       \o (IF a.k = "node" /\ b.k = "node"
           THEN " but for " \o Names({n \in DOMAIN a.v : n \notin DOMAIN b.v}) ELSE "")
DiffAns(e) == IF e.r.tag = ans'.tag /\ e.r.tag \in {"out", "obj"} THEN Diff(ans'.v, e.r.v)
              ELSE " (" \o ans'.tag \o " expected, " \o e.r.tag \o ")"
DiffObjs(e) ==
  IF Len(e.obs) # Len(objs') THEN ""
  ELSE LET o == CHOOSE o \in DOMAIN objs' : ~Same(objs'[o].o, e.obs[o])
       IN  " " \o ToString(o) \o Diff(objs'[o].o, e.obs[o])
\* A request for a host has a path, even if the reference has none.
Asked(u, e) == u \in Asks(e) \/ (At(u, Len(u)) = "/" /\ SubSeq(u, 1, Len(u) - 1) \in Asks(e))
Answered(e) ==
  /\ e.r.tag = ans'.tag
  /\ e.r.tag = "out" => Same(ans'.v, e.r.v)
  /\ e.r.tag = "obj" => Same(ans'.v, e.r.v)
  /\ e.r.tag = "valid" => e.r.url = ans'.url /\ e.r.acct = ans'.acct
Held(e) ==
  /\ Len(e.obs) = Len(objs')
  /\ \A o \in DOMAIN objs' : Same(objs'[o].o, e.obs[o])
Next ==
  /\ i <= Len(Ev) /\ verdict = "ok"
  /\ LET e == Ev[i] IN
     IF ENABLED Act(e)
     THEN /\ Act(e)
          /\ verdict' = IF ~Answered(e) THEN "response of " \o e.op \o DiffAns(e)
                        ELSE IF ~e.kept THEN "the document was changed"
                        ELSE IF \E u \in Range(e.asked) : ~Asked(u, e) THEN "what was requested by " \o e.op
                        ELSE IF ~Held(e) THEN "objects after " \o e.op \o DiffObjs(e) ELSE "ok"
     ELSE /\ UNCHANGED avars /\ verdict' = "outcome of " \o e.op
  /\ i' = i + 1 /\ t' = t
  /\ verdict' # "ok" => Report(t, i, verdict')
  /\ (verdict' = "ok" /\ i = Len(Ev)) => Report(t, 0, "ok")
Spec == Init /\ [][Next]_tvars
=============================================================================
