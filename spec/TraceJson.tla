----------------------------- MODULE TraceJson -----------------------------
EXTENDS JsonSpec, TraceBase
VARIABLES t, i, verdict
tvars == <<jvars, t, i, verdict>>
Ev == Traces[t].ev
Cfg == Traces[t].cfg
Pairs(l) == [n \in {x[1] : x \in Range(l)} |-> (CHOOSE x \in Range(l) : x[1] = n)[2]]
Init ==
  /\ t \in 1..Len(Traces) /\ i = 1 /\ verdict = "ok"
  /\ world = [classes |-> [c \in DOMAIN Cfg.classes |->
                [up |-> Range(Cfg.classes[c].order), order |-> Cfg.classes[c].order,
                 native |-> Range(Cfg.classes[c].native),
                 fixed |-> Pairs(Cfg.classes[c].fixed),
                 trans |-> [j \in DOMAIN Cfg.classes[c].trans |-> Pairs(Cfg.classes[c].trans[j])]]],
              kind |-> Pairs(Cfg.kind)]
  /\ objs = <<>> /\ ans = Ok
Param(p) == [include |-> Range(p.include), exclude |-> Range(p.exclude),
             rename |-> Pairs(p.rename), none |-> p.none, reject |-> Range(p.reject),
             json |-> p.json, trans |-> Pairs(p.trans)]
Act(e) ==
  CASE e.op = "new" -> New(e.c)
    [] e.op = "set" -> Set(e.o, e.n, e.v)
    [] e.op = "get" -> Get(e.o, e.n)
    [] e.op = "index" -> Index(e.o, e.ns)
    [] e.op = "items" -> Items(e.o)
    [] e.op = "data" -> Data(e.o, Param(e.p), e.r)
Same(r, a) ==
  IF a.tag = "got" THEN r.tag = "got" /\ Len(r.m) = Cardinality(a.m) /\ Range(r.m) = a.m
  ELSE r = a
\* What the objects hold, as observed.
Held(e) ==
  /\ Len(e.obs) = Len(objs')
  /\ \A o \in DOMAIN objs' : Range(e.obs[o]) =
       {<<n, objs'[o].vals[n]>> : n \in {x \in DOMAIN objs'[o].vals : objs'[o].vals[x] # None}}
Next ==
  /\ i <= Len(Ev) /\ verdict = "ok"
  /\ LET e == Ev[i] IN
     IF ENABLED Act(e)
     THEN /\ Act(e)
          /\ verdict' = IF ~Same(e.r, ans') THEN "response of " \o e.op
                        ELSE IF e.op = "data" /\ e.min /\ ~e.compact /\ e.r.tag = "out" THEN "spaces in minified text"
                        ELSE IF ~Held(e) THEN "objects after " \o e.op ELSE "ok"
     ELSE /\ UNCHANGED jvars /\ verdict' = "outcome of " \o e.op
  /\ i' = i + 1 /\ t' = t
  /\ verdict' # "ok" => Report(t, i, verdict')
  /\ (verdict' = "ok" /\ i = Len(Ev)) => Report(t, 0, "ok")
Spec == Init /\ [][Next]_tvars
=============================================================================
