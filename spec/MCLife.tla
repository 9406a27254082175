------------------------------- MODULE MCLife -------------------------------
(* Two files, two handles, one id. *)
EXTENDS LifeSpec, Json

CONSTANTS MCHandles, MCEmit, MCSess
VARIABLE op
mcvars == <<lvars, cvars, op>>

OneHandle == {1}
TwoHandles == {1, 2}
P == {1, 2}
K == <<97>>
V == [t |-> "int", n |-> 0]

Init ==
  /\ disk = [p \in P |-> Absent] /\ open = [h \in MCHandles |-> Closed]
  /\ sess = [w \in {1, 2} |-> <<>>] /\ ans = RNone /\ cont = 0 /\ resp = 0 /\ op = [op |-> "init"]

Upd(h) == [h |-> h, e |-> [op |-> "update", k |-> K, v |-> V]]

Plain ==
  /\ UNCHANGED <<cvars, sess>>
  /\ \/ \E p \in P, how \in {<<"none", FALSE>>, <<"none", TRUE>>, <<"container", TRUE>>} :
          /\ p = 1 /\ Plant(p, how[1], how[2])
          /\ op' = [op |-> "plant", p |-> p, root |-> how[1], extra |-> how[2]]
     \/ \E p \in P, s, f \in BOOLEAN :
          /\ Create(p, 2, s, f)
          /\ op' = [op |-> "make", p |-> p, cap |-> 2, strict |-> s, fresh |-> f]
     \/ MCHandles # OneHandle /\ (\A h \in MCHandles : Idle(h)) /\ CloseAll /\ op' = [op |-> "closeall"]
     \/ \E h \in MCHandles :
          \/ \E p \in P, s, f \in BOOLEAN :
               /\ New(h, p, 2, s, f)
               /\ op' = [op |-> "new", h |-> h, p |-> p, cap |-> 2, strict |-> s, fresh |-> f]
          \/ \E p \in P : Open(h, p) /\ op' = [op |-> "open", h |-> h, p |-> p]
          \/ \E p \in P, how \in {"new", "open"} :
               /\ MCHandles = {1, 2} /\ LookAt(h, p, how, FALSE)
               /\ op' = [op |-> "look", h |-> h, p |-> p, how |-> how, fresh |-> FALSE]
          \/ h = 1 /\ MCHandles = {1, 2} /\ LookAt(h, h, "make", TRUE)
             /\ op' = [op |-> "look", h |-> h, p |-> h, how |-> "make", fresh |-> TRUE]
          \/ h = 1 /\ OpenMemory(h) /\ op' = [op |-> "memory", h |-> h]
          \/ MCHandles = OneHandle /\ Idle(h) /\ Close(h) /\ op' = [op |-> "close", h |-> h]
          \/ On(h, Upd(h).e) /\ op' = [op |-> "on", h |-> h, e |-> Upd(h).e]
          \/ \E how \in {"ok", "raise"} :
               LET st == <<Upd(h)>> \o (IF \A g \in MCHandles : Live(g)
                                       THEN [j \in 1..1 |-> Upd(3 - h)] ELSE <<>>)
               IN  /\ MCHandles = {1, 2} /\ Block(h, st, how)
                   /\ op' = [op |-> "block", h |-> h, steps |-> st, how |-> how]
Sessions ==
  /\ UNCHANGED cvars
  /\ \E w \in {1, 2} :
       \/ Leave(w) /\ op' = [op |-> "leave", w |-> w]
       \/ \E h \in MCHandles :
            /\ Len(sess[w]) < MCSess /\ Enter(w, h)
            /\ op' = [op |-> "enter", w |-> w, h |-> h]
       \/ \E d \in DOMAIN sess[w] :
            /\ Say(w, d, Upd(1).e)
            /\ op' = [op |-> "say", w |-> w, d |-> d, e |-> Upd(1).e]
Next == Plain \/ Sessions

Spec == Init /\ [][Next]_mcvars
View == <<disk, open, sess>>
Emit ==
  \/ ~MCEmit
  \/ PrintT(<<"EDGE", ToJson([s |-> ToString(View), o |-> op',
                              t |-> ToString(View'),
                              i |-> (disk = [p \in P |-> Absent]
                                     /\ open = [h \in MCHandles |-> Closed])])>>)

-----------------------------------------------------------------------------
\* Only starting afresh removes anything from a file, and only a write
\* changes an object.
KeepsObjects ==
  [][ \A p \in P :
        (disk[p].root = "container" /\ ~("fresh" \in DOMAIN op' /\ op'.fresh))
        => /\ disk'[p].root = "container" /\ disk'[p].extra = disk[p].extra
           /\ \A k \in AllKeys(disk[p].cont) : k \in AllKeys(disk'[p].cont)
           /\ [g \in 1..1 |-> disk'[p].cont.grps[g].caps]
                = [g \in 1..1 |-> disk[p].cont.grps[g].caps] ]_mcvars

\* A refused step changes nothing.
RefusedIsHarmless ==
  [][ ans'.tag \in {"LockError", "IncompatibleDatabaseError", "ValueError", "Stop",
                   "ReadOnlyError", "FileNotFoundError"}
      => disk' = disk /\ open' = open ]_mcvars

\* What is open for reading only is not changed.
OnlyRead ==
  [][ \A h \in MCHandles : (ReadOnly(h) /\ ReadOnly(h)') => Contents(h)' = Contents(h) ]_mcvars

\* A thread's blocks are not another one's business.
ThreadsApart ==
  [][ \A w \in {1, 2} : ("w" \in DOMAIN op' /\ op'.w # w) => sess'[w] = sess[w] ]_mcvars

\* Closing, and opening what is there, changes no file.
OpeningChangesNothing ==
  [][ \A p \in P : (disk[p].there /\ op'.op \in {"open", "look", "close", "closeall", "enter", "leave"}) => disk'[p] = disk[p] ]_mcvars
=============================================================================
