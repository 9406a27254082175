----------------------------- MODULE TraceRead -----------------------------
EXTENDS ReadSpec, TraceBase
VARIABLES t, i, verdict
tvars == <<rvars, t, i, verdict>>
Ev == Traces[t].ev
Cfg == Traces[t].cfg
Init ==
  /\ t \in 1..Len(Traces) /\ i = 1 /\ verdict = "ok"
  /\ hist = [d \in 1..Cfg.dbs |-> <<EmptyStore>>]
  /\ grp = <<>> /\ ans = RNone
\* The members may be reported in any order.
Same(r, s) ==
  /\ r.tag = s.tag
  /\ IF r.tag = "found"
     THEN /\ Len(r.keys) = Len(s.keys) /\ Len(r.vals) = Len(s.vals)
          /\ {<<r.keys[n], r.vals[n]>> : n \in 1..Len(r.keys)}
               = {<<s.keys[n], s.vals[n]>> : n \in 1..Len(s.keys)}
     ELSE r = s
Act(e) ==
  CASE e.op = "change" -> Change(e.d, e.k, e.v)
    [] e.op = "join" -> Join(e.dbs, e.past)
    [] e.op = "refresh" -> Refresh
    [] e.op = "read" ->
         IF e.late THEN Reads(e.k, e.multiple, TRUE, e.r)
         ELSE \E vs \in Pasts : /\ Same(e.r, Found(vs, e.k, e.multiple))
                                  /\ Reads(e.k, e.multiple, FALSE, Found(vs, e.k, e.multiple))
Next ==
  /\ i <= Len(Ev) /\ verdict = "ok"
  /\ LET e == Ev[i] IN
     IF ENABLED Act(e)
     THEN /\ Act(e)
          /\ verdict' = IF e.op = "read" \/ e.r = ans' THEN "ok" ELSE "response of " \o e.op
     ELSE /\ UNCHANGED rvars /\ verdict' = "outcome of " \o e.op
  /\ i' = i + 1 /\ t' = t
  /\ verdict' # "ok" => Report(t, i, verdict')
  /\ (verdict' = "ok" /\ i = Len(Ev)) => Report(t, 0, "ok")
Spec == Init /\ [][Next]_tvars
=============================================================================
