---------------------------- MODULE TraceSizing ----------------------------
EXTENDS SizingSpec, TraceBase
VARIABLES t, i, verdict
Ev == Traces[t].ev
Init == t \in 1..Len(Traces) /\ i = 1 /\ verdict = "ok" /\ req = 0 /\ ans = 0
        /\ cont = 0 /\ resp = 0
Judge(e) ==
  IF e.r # ans' THEN "answer to " \o e.op
  ELSE IF ~SizedRight(e, e.r) THEN "size of " \o e.op
  ELSE "ok"
Next ==
  /\ i <= Len(Ev) /\ verdict = "ok"
  /\ Ask(Ev[i]) /\ verdict' = Judge(Ev[i])
  /\ i' = i + 1 /\ t' = t /\ UNCHANGED cvars
  /\ verdict' # "ok" => Report(t, i, verdict')
  /\ (verdict' = "ok" /\ i = Len(Ev)) => Report(t, 0, "ok")
Spec == Init /\ [][Next]_<<svars, cvars, t, i, verdict>>
=============================================================================
