---------------------------- MODULE TracePackage ----------------------------
EXTENDS PackageSpec, TraceBase
VARIABLES t, i, verdict
tvars == <<kvars, t, i, verdict>>
Ev == Traces[t].ev
Cfg == Traces[t].cfg
Init ==
  /\ t \in 1..Len(Traces) /\ i = 1 /\ verdict = "ok"
  /\ world = [classes |-> [c \in DOMAIN Cfg.classes |->
                [ns |-> Cfg.classes[c].ns, py |-> Cfg.classes[c].py,
                 up |-> Range(Cfg.classes[c].up),
                 order |-> Cfg.classes[c].order, says |-> Cfg.classes[c].says,
                 native |-> Range(Cfg.classes[c].native)]],
              props |-> Cfg.props]
  /\ pkgs = <<>> /\ engs = <<>> /\ ans = Ok
Map(m) == [n \in {x.ns : x \in Range(m)} |->
             UNION {Range(x.to) : x \in {y \in Range(m) : y.ns = n}}]
Names(l) == [n \in {x.ns : x \in Range(l)} |->
               Range((CHOOSE x \in Range(l) : x.ns = n).names)]
Act(e) ==
  CASE e.op = "package" -> NewPackage(e.ns, Range(e.cs), Range(e.ps), Map(e.map))
    [] e.op = "add" -> Add(e.p, e.q)
    [] e.op = "subtract" -> Subtract(e.p, e.q, Names(e.pkgs[Len(e.pkgs)].objs))
    [] e.op = "engine" -> NewEngine(e.ps)
    [] e.op = "addpackage" -> AddPackage(e.e, e.p)
    [] e.op = "addengine" -> AddEngine(e.e, e.f)
    [] e.op = "droppackage" -> DropPackage(e.e, e.p)
    [] e.op = "dropengine" -> DropEngine(e.e, e.f)
    [] e.op = "refuse" -> Refuse(e.tag)
    [] e.op = "lookup" -> Lookup(e.p, e.nss)
    [] e.op = "adopt" -> Adopt(e.p, e.c)
    [] e.op = "read" -> Reads(e.e, e.ns)
\* The classes of a package or an engine, as observed.
Seen(l) == {[ns |-> x.ns, py |-> x.py, names |-> Range(x.names), anc |-> Range(x.anc)]
              : x \in Range(l)}
Is(objs) == {[ns |-> n, py |-> objs[n].py, names |-> objs[n].names, anc |-> objs[n].anc]
               : n \in DOMAIN objs}
\* Some copy answers something else than the class it is a copy of.
Forgets(l, objs) == \E x \in Range(l) : Whole(objs, x.ns) /\ x.who # Who(objs[x.ns].cls)
Observed(e) ==
  IF Len(e.pkgs) # Len(pkgs') \/ Len(e.engs) # Len(engs') THEN "number of results of "
  ELSE IF \E j \in DOMAIN e.classes :
            \/ e.classes[j].ns # world.classes[j].ns
            \/ Range(e.classes[j].names) # Natives(j)
            \/ e.classes[j].who # Who(j)
  THEN "original classes after "
  ELSE IF \E j \in DOMAIN e.pkgs :
            \/ e.pkgs[j].ns # pkgs'[j].ns
            \/ Seen(e.pkgs[j].objs) # Is(pkgs'[j].objs)
            \/ Range(e.pkgs[j].props) # pkgs'[j].props
            \/ Len(e.pkgs[j].objs) # Cardinality(DOMAIN pkgs'[j].objs)
  THEN "packages after "
  ELSE IF \E j \in DOMAIN e.engs : Seen(e.engs[j]) # Is(engs'[j].all.objs)
  THEN "engines after "
  ELSE IF \/ \E j \in DOMAIN e.pkgs : Forgets(e.pkgs[j].objs, pkgs'[j].objs)
          \/ \E j \in DOMAIN e.engs : Forgets(e.engs[j], engs'[j].all.objs)
  THEN "inheritance after " ELSE "ok"
Same(r, a) ==
  /\ DOMAIN r = DOMAIN a
  /\ \A f \in DOMAIN r : IF f = "names" THEN Range(r.names) = a.names ELSE r[f] = a[f]
Next ==
  /\ i <= Len(Ev) /\ verdict = "ok"
  /\ LET e == Ev[i] IN
     IF ENABLED Act(e)
     THEN /\ Act(e)
          /\ verdict' = IF ~Same(e.r, ans') THEN "response of " \o e.op
                        ELSE IF Observed(e) # "ok" THEN Observed(e) \o e.op ELSE "ok"
     ELSE /\ UNCHANGED kvars /\ verdict' = "outcome of " \o e.op
  /\ i' = i + 1 /\ t' = t
  /\ verdict' # "ok" => Report(t, i, verdict')
  /\ (verdict' = "ok" /\ i = Len(Ev)) => Report(t, 0, "ok")
Spec == Init /\ [][Next]_tvars
=============================================================================
