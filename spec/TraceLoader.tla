---------------------------- MODULE TraceLoader ----------------------------
(* Judges traces recorded from the real loaders. *)
EXTENDS LoaderSpec, TraceBase
VARIABLES t, i, verdict
tvars == <<lvars, t, i, verdict>>
Ev == Traces[t].ev
Init == /\ t \in 1..Len(Traces) /\ i = 1 /\ verdict = "ok"
        /\ web = <<>> /\ cache = <<>> /\ asked = <<>> /\ ans = Done
Act(e) ==
  CASE e.op = "serve" -> Serve(e.u.text, e.w)
    [] e.op = "load" -> Load(e.u, e.secure, e.h)
    [] e.op = "cached" -> CachedLoad(e.u, e.secure, e.h)
    [] e.op = "get" -> Get(e.u, e.h, e.raw)
Next ==
  /\ i <= Len(Ev) /\ verdict = "ok"
  /\ LET e == Ev[i] IN
     /\ Act(e)
     /\ verdict' = IF e.asked # asked' THEN "requests of " \o e.op
                   ELSE IF e.r # ans' THEN "answer of " \o e.op ELSE "ok"
  /\ i' = i + 1 /\ t' = t
  /\ verdict' # "ok" => Report(t, i, verdict')
  /\ (verdict' = "ok" /\ i = Len(Ev)) => Report(t, 0, "ok")
Spec == Init /\ [][Next]_tvars
=============================================================================
