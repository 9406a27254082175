---------------------------- MODULE TraceCluster ----------------------------
(* Judges traces recorded from real groups of database modules. *)
EXTENDS ClusterSpec, TraceBase
VARIABLES t, i, verdict
tvars == <<clvars, t, i, verdict>>
Ev == Traces[t].ev
Range(s) == {s[j] : j \in DOMAIN s}
Init == /\ t \in 1..Len(Traces) /\ i = 1 /\ verdict = "ok"
        /\ disk = <<>> /\ mods = <<>> /\ reg = Empty /\ away = Empty /\ ans = Ok
Act(e) ==
  CASE e.op = "open" -> Open(e.d, e.far)
    [] e.op = "openwith" -> OpenWith(Range(e.ns))
    [] e.op = "close" -> Close
    [] e.op = "create" -> Create(e.n, e.over)
    [] e.op = "createany" -> IF e.r.tag = "module" THEN CreateAny(e.r.name) ELSE FALSE
    [] e.op = "destroy" -> Destroy(e.n)
    [] e.op = "destroypath" -> DestroyPath(e.n, e.empty, e.all)
    [] e.op = "direct" -> Direct(e.n)
    [] e.op = "names" -> Names
    [] e.op = "discover" -> Discover
    [] e.op = "mkdir" -> MkDir(e.n, e.init)
    [] e.op = "putfile" -> PutFile(e.n, e.f)
    [] e.op = "write" -> Write(e.n, e.k, e.v)
    [] e.op = "remove" -> Remove(e.n, e.k)
    [] e.op = "look" -> Look(e.n)
    [] e.op = "size" -> Size(e.n)
    [] e.op = "total" -> Total
    [] e.op = "move" -> Move(e.n)
    [] e.op = "note" -> Note(e.n)
    [] e.op = "noted" -> Noted(e.n)
    [] e.op = "forget" -> Forget(e.n)
    [] e.op = "known" -> Known
Same(r, a) ==
  /\ r.tag = a.tag
  /\ CASE a.tag = "names" -> Len(r.names) = Cardinality(a.names) /\ Range(r.names) = a.names
       [] a.tag = "objects" -> Len(r.map) = Cardinality(a.map) /\ Range(r.map) = a.map
       [] OTHER -> r = a
\* The directories as found: [name, init, db, foreign]
Found(e) ==
  /\ {x.name : x \in Range(e.dirs)} = DOMAIN disk'
  /\ \A x \in Range(e.dirs) :
       /\ x.init = disk'[x.name].init /\ x.db = (disk'[x.name].db # <<>>)
       /\ Range(x.foreign) = disk'[x.name].foreign
       /\ x.wrong = <<>>
Next ==
  /\ i <= Len(Ev) /\ verdict = "ok"
  /\ LET e == Ev[i] IN
     IF ENABLED Act(e)
     THEN /\ Act(e)
          /\ verdict' = IF ~Same(e.r, ans') THEN "answer of " \o e.op
                        ELSE IF ~Found(e) THEN "directories after " \o e.op
                        ELSE IF ~e.calm THEN "something else changed after " \o e.op
                        ELSE "ok"
     ELSE UNCHANGED clvars /\ verdict' = "outcome of " \o e.op
  /\ i' = i + 1 /\ t' = t
  /\ verdict' # "ok" => Report(t, i, verdict')
  /\ (verdict' = "ok" /\ i = Len(Ev)) => Report(t, 0, "ok")
Spec == Init /\ [][Next]_tvars
=============================================================================
