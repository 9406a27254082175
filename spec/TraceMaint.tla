----------------------------- MODULE TraceMaint -----------------------------
(* Judges traces of maintenance recorded from a real database in use. *)
EXTENDS MaintSpec, TraceBase

\* hist = the containers that were stored, us[u] = [open, base, view],
\* ms[m] = [on, job, base, src, alone, grown]
VARIABLES t, i, verdict, hist, us, ms
tvars == <<mtvars, cvars, t, i, verdict, hist, us, ms>>

Ev == Traces[t].ev
Cfg == Traces[t].cfg

ToStore(items) == PutAll(EmptyStore, items)
ToGroup(g) == [id |-> g.id, caps |-> g.caps, strict |-> g.strict, store |-> ToStore(g.items)]
ToCont(o) == [grps |-> [j \in 1..Len(o.grps) |-> ToGroup(o.grps[j])], prim |-> o.prim]

Now == Len(hist)
Stored0 == hist[Now]

Init ==
  /\ t \in 1..Len(Traces)
  /\ i = 1 /\ verdict = "ok"
  /\ hist = <<ToCont(Cfg.start)>>
  /\ us = [u \in 1..Cfg.users |-> [open |-> FALSE]]
  /\ ms = [m \in 1..Cfg.maints |-> [on |-> FALSE, base |-> 1]]
  /\ stored = 0 /\ epoch = 0 /\ truth = 0 /\ users = 0 /\ maints = 0 /\ what = 0
  /\ cont = 0 /\ resp = 0

SameBag(a, b) ==
  /\ Len(a) = Len(b)
  /\ \A j \in 1..Len(a) :
       Cardinality({n \in 1..Len(a) : a[n] = a[j]})
         = Cardinality({n \in 1..Len(b) : b[n] = a[j]})

Answers(c, e) ==
  IF e.op = "look"
  THEN /\ e.r.tag = "items"
       /\ Len(e.r.keys) = Cardinality(AllKeys(c))
       /\ \A j \in 1..Len(e.r.keys) :
            e.r.keys[j] \in AllKeys(c) /\ e.r.vals[j] = ReadVal(c, e.r.keys[j])
  ELSE LET x == Do(c, e) IN
       /\ e.r.tag = x.r.tag
       /\ IF e.r.tag = "deleted" THEN SameBag(e.r.vals, x.r.vals) ELSE e.r.vals = x.r.vals

Eff(e) == IF e.op = "read" THEN [op |-> "read", k |-> e.k, d |-> <<>>, r |-> e.r] ELSE e
After(c, e) == IF e.op = "look" THEN c ELSE Do(c, e).c

\* Also a transaction that changed nothing to be seen counts as one.
Counts(e) ==
  IF e.op \in {"start", "step"} THEN e.at = "after" \/ ("n" \in DOMAIN e /\ e.n > 1)
  ELSE e.op \in {"commit", "create", "update", "delete"} /\ ~(e.op # "commit" /\ us[e.u].open)
NewVersion(e, b) == IF b = Stored0 /\ ~Counts(e) THEN hist ELSE Append(hist, b)

UserData == {"create", "update", "delete", "read", "look"}

\* An id that this transaction changed was not changed by others.
Untouched(base, log) ==
  LET old == ViewMap(base) now == ViewMap(Stored0)
  IN  \A k \in DOMAIN log : (k \in DOMAIN old) = (k \in DOMAIN now)
                             /\ (k \in DOMAIN old => old[k] = now[k])

JudgeUser(e, b) ==
  LET u == us[e.u] IN
  CASE e.op \in UserData /\ ~u.open ->
         LET c == Stored0 IN
         IF ~Answers(c, Eff(e)) THEN "response of " \o e.op
         ELSE IF ~UserStep(c, b, Log(c, After(c, Eff(e)))) THEN "contents after " \o e.op
         ELSE "ok"
    [] e.op \in UserData ->
         IF ~Answers(u.view, Eff(e)) THEN "response of " \o e.op \o " in a transaction"
         ELSE IF b # Stored0 THEN "contents after " \o e.op \o " in a transaction"
         ELSE "ok"
    [] e.op = "commit" /\ e.r.tag = "none" ->
         LET log == Log(hist[u.base], u.view) IN
         IF ~Untouched(hist[u.base], log) THEN "lost update"
         ELSE IF ~UserStep(Stored0, b, log) THEN "contents after commit"
         ELSE "ok"
    [] e.op = "commit" ->
         IF e.r.tag # "ConflictError" THEN "outcome of commit"
         ELSE IF u.base = Now THEN "conflict without another commit"
         ELSE IF b # Stored0 THEN "contents after conflict"
         ELSE "ok"
    [] OTHER -> \* begin, abort
         IF e.r.tag # "none" THEN "outcome of " \o e.op
         ELSE IF b # Stored0 THEN "contents after " \o e.op
         ELSE "ok"

NextUser(e, b) ==
  LET u == us[e.u] IN
  CASE e.op = "begin" -> [open |-> TRUE, base |-> Now, view |-> Stored0]
    [] e.op \in {"commit", "abort"} -> [open |-> FALSE]
    [] u.open -> [u EXCEPT !.view = After(u.view, Eff(e))]
    [] OTHER -> u

Caps(job) == IF job.op = "resize" THEN NewCaps(job.cap, job.most) ELSE <<>>

\* The groups a job is about, as the container is when it starts.
About(job) ==
  IF job.op = "resize" /\ ~job.all THEN {PrimId(Stored0)}
  ELSE IF job.op = "resize" THEN Ids(Stored0)
  ELSE Ids(Stored0) \ {PrimId(Stored0)}

\* A job as it stands before this event.
Mt(e) ==
  IF e.op = "start"
  THEN [on |-> TRUE, job |-> e.job, src |-> About(e.job), grown |-> FALSE,
        base |-> IF e.job.fresh THEN Now ELSE ms[e.m].base,
        from |-> IF e.job.fresh THEN Now ELSE ms[e.m].base,
        list |-> {}, prim |-> {},
        \* what it is about is found out from what its connection sees
        alone |-> /\ \A m \in DOMAIN ms : ~ms[m].on
                  /\ e.job.fresh \/ ms[e.m].base = Now]
  ELSE ms[e.m]

\* The groups that it may take out of the container: those it was asked to
\* merge, as the list was when it was resized (or before a condense began).
MayLeave(mt, grows) ==
  CASE mt.job.op = "condense" ->
         UNION {Ids(hist[n]) \ {PrimId(hist[n])} : n \in mt.from..Now}
    [] mt.job.all -> IF grows THEN Ids(Stored0) ELSE mt.list
    [] OTHER -> IF grows THEN {PrimId(Stored0)} ELSE mt.prim

JudgeMaint(e, b) ==
  LET mt == Mt(e)
      job == mt.job
      grows == Ids(b) \ Ids(Stored0) # {}
  IN
  IF ~MaintStep(Stored0, b, Caps(job), job.transfer) THEN "contents during " \o job.op
  ELSE IF grows /\ mt.grown THEN "grown again"
  ELSE IF ~(Ids(Stored0) \ Ids(b) \subseteq MayLeave(mt, grows)) THEN "a group left"
  ELSE IF grows /\ \A n \in mt.base..Now : job.cap < Total(hist[n]) THEN "resize to less than there is"
  ELSE IF e.at # "end" THEN IF e.r.tag = "none" THEN "ok" ELSE "outcome of a step"
  ELSE CASE e.r.tag = "groups" ->
              IF job.op = "resize" /\ ~(mt.grown \/ grows) THEN "resize without a new group"
              ELSE IF mt.alone /\ (job.tm \/ job.transfer) /\ ~Finished(b, mt.src, job.transfer)
              THEN "unfinished " \o job.op
              ELSE IF mt.alone /\ e.r.num # (IF job.transfer THEN Cardinality(mt.src) ELSE 0)
              THEN "answer of " \o job.op
              ELSE "ok"
         [] e.r.tag = "ConflictError" ->
              IF mt.base = Now THEN "conflict of " \o job.op \o " without another commit" ELSE "ok"
         [] e.r.tag = "ValueError" ->
              IF /\ job.op = "resize" /\ ~mt.grown /\ b = Stored0
                 /\ \E n \in mt.base..Now : job.cap < Total(hist[n])
              THEN "ok" ELSE "refusal of " \o job.op
         [] OTHER -> "outcome of " \o job.op

NextMaint(e, b) ==
  LET mt == Mt(e)
      v == Len(NewVersion(e, b))
      grows == Ids(b) \ Ids(Stored0) # {}
  IN  IF e.at = "end" THEN [on |-> FALSE, base |-> v]
      ELSE [mt EXCEPT !.grown = @ \/ grows,
                      !.list = IF grows THEN Ids(Stored0) ELSE @,
                      !.prim = IF grows THEN {PrimId(Stored0)} ELSE @,
                      !.base = IF e.at = "after" THEN v ELSE @]

\* Whoever starts while another is at work makes both not alone.
Company(e) ==
  [m \in DOMAIN ms |->
     IF e.op = "start" /\ m # e.m /\ ms[m].on THEN [ms[m] EXCEPT !.alone = FALSE] ELSE ms[m]]

Next ==
  /\ i <= Len(Ev) /\ verdict = "ok"
  /\ LET e == Ev[i]
         b == ToCont(e.db)
         isM == e.op \in {"start", "step"}
         sync == e.op = "sync"
     IN /\ verdict' = IF b.prim = 0 THEN "the primary is not in the list"
                      ELSE IF sync THEN IF b = Stored0 /\ e.r.tag = "none" THEN "ok" ELSE "sync"
                      ELSE IF isM THEN JudgeMaint(e, b) ELSE JudgeUser(e, b)
        /\ IF verdict' # "ok" THEN UNCHANGED <<hist, us, ms>>
           ELSE /\ hist' = NewVersion(e, b)
                /\ us' = IF isM \/ sync THEN us ELSE [us EXCEPT ![e.u] = NextUser(e, b)]
                /\ ms' = IF sync THEN [ms EXCEPT ![e.m].base = Now]
                         ELSE IF isM THEN [Company(e) EXCEPT ![e.m] = NextMaint(e, b)] ELSE ms
  /\ i' = i + 1 /\ t' = t /\ UNCHANGED <<mtvars, cvars>>
  /\ verdict' # "ok" => Report(t, i, verdict')
  /\ (verdict' = "ok" /\ i = Len(Ev)) => Report(t, 0, "ok")

Spec == Init /\ [][Next]_tvars
=============================================================================
