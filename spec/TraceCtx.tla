------------------------------ MODULE TraceCtx ------------------------------
EXTENDS CtxSpec, TraceBase
VARIABLES t, i, verdict
tvars == <<xvars, t, i, verdict>>
Ev == Traces[t].ev
Init ==
  /\ t \in 1..Len(Traces) /\ i = 1 /\ verdict = "ok"
  /\ props = <<>> /\ stack = [o \in 1..Traces[t].cfg.objs |-> <<>>]
  /\ store = [o \in 1..Traces[t].cfg.objs |-> Nothing] /\ ans = Ok
Act(e) ==
  CASE e.op = "new" -> New(e.g, e.s, e.d)
    [] e.op = "derive" -> Derive(e.p, e.kind, e.h)
    [] e.op = "extend" -> Extend(e.p, e.kind, e.c, e.h)
    [] e.op = "open" -> Open(e.o, e.c)
    [] e.op = "close" -> Close(e.o)
    [] e.op = "get" -> Get(e.o, e.p)
    [] e.op = "set" -> Set(e.o, e.p, e.v)
    [] e.op = "del" -> Del(e.o, e.p)
Next ==
  /\ i <= Len(Ev) /\ verdict = "ok"
  /\ LET e == Ev[i] IN
     IF ENABLED Act(e)
     THEN /\ Act(e)
          /\ verdict' = IF e.r # ans' THEN "response of " \o e.op
                        ELSE IF \E o \in Objs : e.store[o] # store'[o]
                        THEN "effect of " \o e.op ELSE "ok"
     ELSE /\ UNCHANGED xvars /\ verdict' = "outcome of " \o e.op
  /\ i' = i + 1 /\ t' = t
  /\ verdict' # "ok" => Report(t, i, verdict')
  /\ (verdict' = "ok" /\ i = Len(Ev)) => Report(t, 0, "ok")
Spec == Init /\ [][Next]_tvars
=============================================================================
