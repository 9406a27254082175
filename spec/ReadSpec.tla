------------------------------ MODULE ReadSpec ------------------------------
(***************************************************************************)
(* Reading one id from several databases at once.                          *)
(*                                                                         *)
(* hist[d] = the committed contents of database d, oldest first            *)
(* grp = the databases of the group connection in order, each with the     *)
(*   version it reads from at least (base), whether it is pinned to it     *)
(*   (a connection to the past), or <<>> when there is no group connection *)
(***************************************************************************)
EXTENDS StoreBase

VARIABLES hist, grp, ans
rvars == <<hist, grp, ans>>

Now(d) == Len(hist[d])

\* Another program changes a database.
Change(d, k, v) ==
  /\ LET old == hist[d][Now(d)] IN
     hist' = [hist EXCEPT ![d] = Append(@, IF v = <<>> THEN Without(old, {k})
                                           ELSE Put(old, k, v[1]))]
  /\ UNCHANGED grp /\ ans' = RNone

\* past[j] is 0, or the version that database dbs[j] is to be opened at.
Join(dbs, past) ==
  /\ grp' = [j \in 1..Len(dbs) |->
       [d |-> dbs[j], pinned |-> past[j] # 0,
        base |-> IF past[j] # 0 THEN past[j] ELSE Now(dbs[j])]]
  /\ UNCHANGED hist /\ ans' = RNone

Refresh ==
  /\ grp' = [j \in 1..Len(grp) |->
       IF grp[j].pinned THEN grp[j] ELSE [grp[j] EXCEPT !.base = Now(grp[j].d)]]
  /\ UNCHANGED hist /\ ans' = RNone

\* The versions a member of the group may read from.
May(j) == IF grp[j].pinned THEN {grp[j].base} ELSE grp[j].base..Now(grp[j].d)

\* The members that find the id, reading from the versions vs.
Finders(vs, k) ==
  SelectSeq([j \in 1..Len(grp) |-> j], LAMBDA j : k \in DOMAIN hist[grp[j].d][vs[j]])

Found(vs, k, multiple) ==
  LET f == Finders(vs, k)
      val(j) == hist[grp[j].d][vs[j]][k]
  IN  IF f = <<>> THEN R("nothing", <<>>, <<>>, 0)
      ELSE IF multiple
      THEN R("found", [n \in 1..Len(f) |-> <<grp[f[n]].d>>],
             [n \in 1..Len(f) |-> val(f[n])], 0)
      ELSE IF Len(f) > 1 THEN RErr("CitrineDuplicateIdError")
      ELSE RVal(val(f[1]))

Pasts == {vs \in [1..Len(grp) -> UNION {May(j) : j \in 1..Len(grp)}] :
              \A j \in 1..Len(grp) : vs[j] \in May(j)}

\* late: some database does not answer within the time given.
Reads(k, multiple, late, r) ==
  /\ IF late THEN r = RErr("TimeoutError")
     ELSE \E vs \in Pasts : r = Found(vs, k, multiple)
  /\ UNCHANGED <<hist, grp>> /\ ans' = r

Read(k, multiple) ==
  \E vs \in Pasts : Reads(k, multiple, FALSE, Found(vs, k, multiple))
=============================================================================
