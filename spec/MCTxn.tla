------------------------------- MODULE MCTxn -------------------------------
(* Two connections, a few ids: every interleaving of transactions. *)
EXTENDS TxnSpec, Json, IOUtils

CONSTANTS MCConns, MCKeys, MCVals, MCMaxVersions, MCOff, MCRace, MCEmit

VARIABLE op
mcvars == <<tvars0, op>>

K == <<97>>
L == <<98>>
KeysOne == {K}
KeysTwo == {K, L}
Zero == [t |-> "int", n |-> 0]
One == [t |-> "int", n |-> 1]
ValsOne == {One}
ValsTwo == {Zero, One}
TwoConns == {1, 2}
OneConn == {1}
ThreeConns == {1, 2, 3}

Init ==
  /\ hist = <<[grps |-> <<[caps |-> <<2, 2, 2>>, strict |-> FALSE, store |-> EmptyStore]>>,
               prim |-> 1]>>
  /\ conns = [c \in MCConns |-> Fresh(1, hist[1])]
  /\ out = RNone
  /\ op = [op |-> "init"]
  /\ cont = 0 /\ resp = 0

Writes ==
  {[op |-> o, k |-> k, v |-> v] : o \in {"create", "update"}, k \in MCKeys, v \in MCVals}
  \cup {[op |-> "delete", k |-> k] : k \in MCKeys}
Reads == {[op |-> "read", k |-> k, d |-> <<>>] : k \in MCKeys}

On1(c, e) == op' = [op |-> e.op, c |-> c, e |-> e]

Next ==
  /\ UNCHANGED cvars
  /\ \E c \in MCConns :
     \/ \E e \in Writes : (AutoWrite(c, e) \/ Inside(c, e)) /\ On1(c, e)
     \/ \E e \in Reads : (AutoRead(c, e) \/ Inside(c, e)) /\ On1(c, e)
     \/ MCOff /\ Refresh(c) /\ On1(c, [op |-> "refresh"])
     \/ Enter(c) /\ On1(c, [op |-> "enter"])
     \/ /\ conns[c].mode = "block"
        /\ \/ (CommitOk(c) \/ CommitConflicts(c)) /\ On1(c, [op |-> "exit", how |-> "ok"])
           \/ Abort(c) /\ On1(c, [op |-> "exit", how |-> "raise"])
           \/ Changes(conns[c]) # {} /\ CommitFails(c)
                /\ On1(c, [op |-> "exit", how |-> "fault"])
     \/ /\ MCOff
        /\ \/ Off(c) /\ On1(c, [op |-> "off"])
           \/ On(c) /\ On1(c, [op |-> "on"])
           \/ conns[c].mode = "off" /\
              \/ (CommitOk(c) \/ CommitConflicts(c)) /\ On1(c, [op |-> "commit"])
              \/ Abort(c) /\ On1(c, [op |-> "abort"])
     \/ /\ MCRace
        /\ \E d \in MCConns, e, o \in Writes :
             /\ AutoWriteRaced(c, e, d, o)
             /\ op' = [op |-> "raced", c |-> c, e |-> e, d |-> d, o |-> o]

Spec == Init /\ [][Next]_<<mcvars, cvars>>
Bound == Now <= MCMaxVersions
View == <<hist, conns>>

Emit ==
  \/ ~MCEmit
  \/ PrintT(<<"EDGE", ToJson([s |-> ToString(<<hist, conns>>), o |-> op',
                              t |-> ToString(<<hist', conns'>>),
                              i |-> (Len(hist) = 1 /\ conns = [c \in MCConns |-> Fresh(1, hist[1])])])>>)

-----------------------------------------------------------------------------
\* A step adds at most the versions of the transactions that commit in it, and
\* never rewrites what was committed.
HistoryGrows ==
  [][ /\ Len(hist') >= Len(hist)
      /\ Len(hist') <= Len(hist) + (IF op'.op = "raced" THEN 2 ELSE 1)
      /\ \A n \in 1..Len(hist) : hist'[n] = hist[n] ]_<<mcvars, cvars>>

\* Nothing done inside a transaction is visible before its end.
NoDirtyRead ==
  [][ (\E c \in MCConns : conns[c].mode # "auto" /\ op'.op \in Writing
          /\ op'.c = c) => hist' = hist ]_<<mcvars, cvars>>

\* A transaction that commits does so on the objects it saw: nobody else
\* changed what it changes since it began (no lost update).
NoLostUpdate ==
  [][ \A c \in MCConns :
        (conns[c].mode # "auto" /\ op'.op \in {"exit", "commit"} /\ op'.c = c
          /\ Len(hist') > Len(hist))
        => /\ ~Clash(Changes(conns[c]), Differ(hist[conns[c].base], Stored))
           /\ Differ(Stored, hist'[Len(hist')]) \subseteq Changes(conns[c]) ]_<<mcvars, cvars>>

\* Atomic: a block becomes visible as a whole, or not at all.
AllOrNothing ==
  [][ \A c \in MCConns :
        (conns[c].mode = "block" /\ op'.op = "exit" /\ op'.c = c)
        => \/ hist' = hist
           \/ \A p \in Changes(conns[c]) :
                LET s == hist'[Len(hist')].grps[p[1]].store
                    w == conns[c].view.grps[p[1]].store
                IN  /\ p[2] \in DOMAIN s <=> p[2] \in DOMAIN w
                    /\ p[2] \in DOMAIN s => s[p[2]] = w[p[2]] ]_<<mcvars, cvars>>

\* Reads inside a block do not change because others commit.
Repeatable ==
  [][ \A c \in MCConns :
        (conns[c].mode # "auto" /\ op'.op \in Reading /\ op'.c # c)
        => conns'[c].view = conns[c].view ]_<<mcvars, cvars>>

\* ... and outside of a block what was read once is read again, whatever the
\* others do, until the connection itself writes, refreshes or enters a block.
SameAgain ==
  [][ \A c \in MCConns :
        (/\ conns[c].mode = "auto" /\ conns[c].read
         /\ (op'.c # c \/ op'.op \in Reading)
         /\ (op'.op = "raced" => op'.d # c))
        => /\ conns'[c].maybe \subseteq conns[c].maybe
           /\ \E n \in conns'[c].maybe :
                op'.c = c => out' = DoIt(hist[n], op'.e).r ]_<<mcvars, cvars>>
=============================================================================
