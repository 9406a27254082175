------------------------------ MODULE MCMaint ------------------------------
(* Exhaustive exploration of the protocol of MaintSpec. *)
EXTENDS MaintSpec, Json, IOUtils

CONSTANTS MCKeys, MCVals, MCUsers, MCMaints, MCJobs, MCStarts, MCStep, MCEmit,
          MCMaxGroups, MCTimes

VARIABLES op, start, runs
mcvars == <<mtvars, cvars, op, start, runs>>

K == <<97>>
L == <<98>>
Zero == [t |-> "int", n |-> 0]
One == [t |-> "int", n |-> 1]
KeysTwo == {K, L}
KeysOne == {K}
ValsTwo == {Zero, One}
ValsOne == {One}
Nobody == {}
First == {1}
Both == {1, 2}

G(id, store) == [id |-> id, caps |-> <<2, 2, 2>>, strict |-> FALSE, store |-> store]
E == EmptyStore
KZ == K :> Zero
LZ == L :> Zero

StartPlain == {[grps |-> <<G(1, KZ)>>, prim |-> 1]}
StartTwo == {[grps |-> <<G(1, E), G(2, KZ @@ LZ)>>, prim |-> 1]}
StartFew == {[grps |-> <<G(1, KZ)>>, prim |-> 1],
             [grps |-> <<G(2, KZ), G(1, LZ)>>, prim |-> 2],
             [grps |-> <<G(1, K :> One), G(2, KZ)>>, prim |-> 1]}

Job(op0, all, tr, tm) ==
  [op |-> op0, all |-> all, transfer |-> tr, tm |-> tm,
   caps |-> IF op0 = "resize" THEN <<2, 2, 2, 2, 2>> ELSE <<>>]
JobsAll == {Job("condense", TRUE, tr, tm) : tr, tm \in BOOLEAN}
           \cup {Job("resize", all, tr, tm) : all, tr, tm \in BOOLEAN}
JobsSteps == {j \in JobsAll : j.tm}
JobsWhole == {j \in JobsAll : ~j.tm}

Init ==
  /\ start \in MCStarts
  /\ stored = start /\ epoch = 1 /\ truth = ViewMap(start)
  /\ users = [u \in MCUsers |-> NoTx]
  /\ maints = [m \in MCMaints |-> Idle]
  /\ cont = 0 /\ resp = 0 /\ what = 0 /\ op = [op |-> "init"]
  /\ runs = [m \in MCMaints |-> 0]

Changes(u) == \* a transaction of a user has few steps here
  Cardinality(Changed(users[u].tx.base, users[u].tx.view))

Next ==
  /\ UNCHANGED <<cont, resp, what, start>>
  /\ \/ \E u \in MCUsers :
          /\ runs' = runs
          /\ \/ UBegin(u) /\ op' = [op |-> "begin", u |-> u]
             \/ UCommit(u) /\ op' = [op |-> "commit", u |-> u, ok |-> ~Refused(users[u].tx)]
             \/ /\ users[u].open /\ Changes(u) < MCStep
                /\ \E k \in MCKeys :
                     \/ \E v \in MCVals : UWrite(u, k, v) /\ op' = [op |-> "update", u |-> u, k |-> k, v |-> v]
                     \/ UDelete(u, k) /\ op' = [op |-> "delete", u |-> u, k |-> k]
     \/ \E m \in MCMaints :
          \/ /\ runs[m] < MCTimes /\ runs' = [runs EXCEPT ![m] = @ + 1]
             /\ \E j \in MCJobs :
                  /\ j.op = "resize" => NGrp(stored) < MCMaxGroups
                  /\ MStart(m, j) /\ op' = [op |-> "start", m |-> m, job |-> j]
          \/ /\ runs' = runs
             /\ \/ MBegin(m) /\ op' = [op |-> "mbegin", m |-> m]
                \/ MCommit(m) /\ op' = [op |-> "mcommit", m |-> m, ok |-> ~Refused(maints[m].tx)]

Spec == Init /\ [][Next]_mcvars

\* epochs matter only by being the same or not
Now(tx) == [tx EXCEPT !.epoch = epoch - @]
VUser(u) == IF users[u].open THEN [users[u] EXCEPT !.tx = Now(@)] ELSE users[u]
VMaint(m) == IF maints[m].st = "tx" THEN [maints[m] EXCEPT !.tx = Now(@)] ELSE maints[m]
View == <<stored, truth, runs, [u \in MCUsers |-> VUser(u)], [m \in MCMaints |-> VMaint(m)]>>

StartJson(s) ==
  [how |-> "make", strict |-> FALSE, p |-> s.prim,
   groups |-> [i \in 1..NGrp(s) |-> [caps |-> s.grps[i].caps, strict |-> FALSE,
                 items |-> ItemSeq(s.grps[i].store, Keys(s.grps[i]))]]]

Emit ==
  \/ ~MCEmit
  \/ PrintT(<<"EDGE", ToJson([s |-> ToString(View), o |-> op', t |-> ToString(View'),
                              i |-> (TLCGet("level") = 1), c |-> StartJson(start)])>>)

-----------------------------------------------------------------------------
\* Nothing committed is lost, nothing deleted comes back.
NothingLost == ViewMap(stored) = truth

\* No user overwrites what another one committed meanwhile.
NoLostUpdate ==
  [][ (op'.op = "commit" /\ op'.ok)
        => LET tx == users[op'.u].tx
               log == Log(tx.base, tx.view)
               old == ViewMap(tx.base)
               now == ViewMap(stored)
           IN  \A k \in DOMAIN log :
                 (k \in DOMAIN old) = (k \in DOMAIN now)
                 /\ (k \in DOMAIN old => old[k] = now[k]) ]_mcvars

UsersDoTheirPart ==
  [][ (op'.op = "commit" /\ op'.ok)
        => LET tx == users[op'.u].tx IN UserStep(stored, stored', Log(tx.base, tx.view)) ]_mcvars

MaintainersDoTheirPart ==
  [][ (op'.op = "mcommit")
        => LET j == maints[op'.m].job IN MaintStep(stored, stored', j.caps, j.transfer) ]_mcvars

\* When it is done all is where it should be (with no other at work).
EndsWell ==
  [][ (op'.op = "mcommit" /\ op'.ok /\ Cardinality(MCMaints) = 1
       /\ maints'[op'.m].st = "idle"
       /\ (maints[op'.m].job.tm \/ maints[op'.m].job.transfer))
        => LET mt == maints[op'.m] IN Finished(stored', Range1(mt.all), mt.job.transfer) ]_mcvars

\* A lone maintainer that does not overlap with anything is not refused.
AloneSucceeds ==
  [][ (op'.op = "mcommit" /\ maints[op'.m].tx.base = stored /\ maints[op'.m].tx.epoch = epoch)
        => op'.ok ]_mcvars
=============================================================================
