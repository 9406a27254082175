---------------------------- MODULE MCContainer ----------------------------
(* Exhaustive exploration of ContainerSpec on small containers. *)
EXTENDS ContainerSpec, Json, IOUtils

CONSTANTS MCKeys, MCVals, MCStarts, MCResize, MCEmit, MCMaxGroups

VARIABLES op, start
mcvars == <<cvars, op, start>>

K == <<97>>
L == <<98>>
KeysTwo == {K, L}
KeysThree == {<<>>, K, L}
Zero == [t |-> "int", n |-> 0]
One == [t |-> "int", n |-> 1]
ValsTwo == {Zero, One}

G(caps, strict, store) == [caps |-> caps, strict |-> strict, store |-> store]
E == EmptyStore

\* How containers start: <<primary, other groups, place of the primary, strict>>
StartsFew == {
  <<G(<<2>>, FALSE, E), <<>>, 0, FALSE>>,
  <<G(<<1>>, FALSE, E), <<>>, 0, TRUE>>,
  <<G(<<1, 1>>, FALSE, E), <<G(<<2>>, FALSE, K :> Zero)>>, 0, TRUE>>,
  <<G(<<3>>, FALSE, K :> One), <<G(<<2>>, FALSE, (K :> Zero) @@ (L :> Zero)),
                                 G(<<3>>, FALSE, K :> One)>>, 2, FALSE>>,
  <<G(<<1>>, FALSE, E), <<G(<<1>>, TRUE, K :> Zero), G(<<1>>, FALSE, L :> One),
                          G(<<1>>, FALSE, K :> One)>>, 3, TRUE>>}

StartsTwo == {
  <<G(<<1>>, FALSE, E), <<>>, 0, TRUE>>,
  <<G(<<3>>, FALSE, K :> One), <<G(<<2>>, FALSE, (K :> Zero) @@ (L :> Zero)),
                                 G(<<1, 1>>, FALSE, K :> One)>>, 2, FALSE>>}

\* Resizes to try: <<capacity, most per collection>>
ResizesFew == {<<1, 1>>, <<2, 1>>, <<4, 2>>}
ResizesTwo == {<<1, 1>>, <<4, 2>>}
ResizesNone == {}

Opt(S) == {<<>>} \cup {<<x>> : x \in S}

Init ==
  /\ \E s \in MCStarts : start = s /\ cont = CMake(s[1], s[2], s[3], s[4])
  /\ resp = RNone
  /\ op = [op |-> "init"]

\* How far a failed merge got: the keys that reached the primary.  The model
\* tries all of them.
Halves(g, src, transfer) ==
  LET ks == Keys([store |-> Merged(g, src)]) \ Keys(Prim(g))
  IN  {[grps |-> [i \in 1..NGrp(g) |->
          IF i = g.prim THEN [g.grps[i] EXCEPT !.store =
               [k \in Keys(Prim(g)) \cup S |-> Merged(g, src)[k]]]
          ELSE IF transfer /\ i \in {src[j] : j \in 1..Len(src)}
          THEN [g.grps[i] EXCEPT !.store = Without(@, S)]
          ELSE g.grps[i]],
        prim |-> g.prim] :
       S \in {S \in SUBSET ks : Fits(Prim(g), S)}}

Next ==
  /\ start' = start
  /\ \/ \E k \in MCKeys :
          \/ \E v \in MCVals : Write(k, v) /\ op' = [op |-> "write", k |-> k, v |-> v]
          \/ \E d \in Opt({Zero}) : Read(k, d) /\ op' = [op |-> "read", k |-> k, d |-> d]
          \/ Has(k) /\ op' = [op |-> "has", k |-> k]
          \/ In(k) /\ op' = [op |-> "in", k |-> k]
          \/ Delete(k) /\ op' = [op |-> "delete", k |-> k]
     \/ All /\ op' = [op |-> "all"]
     \/ \E b \in BOOLEAN : SetStrict(b) /\ op' = [op |-> "set_strict", b |-> b]
     \/ \E tr \in BOOLEAN :
          /\ op' = [op |-> "condense", transfer |-> tr]
          /\ \/ Condense(tr)
             \/ \E h \in Halves(cont, SecIdx(cont), tr) : CondenseFails(tr, h)
     \/ \E r \in MCResize, co, tr \in BOOLEAN :
          /\ NGrp(cont) < MCMaxGroups \/ (co /\ tr)
          /\ op' = [op |-> "resize", cap |-> r[1], most |-> r[2],
                    condense |-> co, transfer |-> tr]
          /\ \/ Resize(r[1], r[2], co, tr)
             \/ LET g == Grown(cont, r[1], r[2])
                IN  \E h \in Halves(g, ResizeSources(g, co), tr) :
                      ResizeFails(r[1], r[2], co, tr, h)

Spec == Init /\ [][Next]_mcvars

View == <<start, cont>>

GroupJson(g) == [caps |-> g.caps, strict |-> g.strict,
                 items |-> ItemSeq(g.store, DOMAIN g.store)]
StartJson(s) == [how |-> "make", prim |-> GroupJson(s[1]),
                 groups |-> [n \in 1..Len(s[2]) |-> GroupJson(s[2][n])],
                 p |-> s[3], strict |-> s[4]]

Emit ==
  \/ ~MCEmit
  \/ PrintT(<<"EDGE", ToJson([s |-> ToString(<<start, cont>>), o |-> op',
                              t |-> ToString(<<start, cont'>>), i |-> (TLCGet("level") = 1),
                              c |-> StartJson(start), r |-> resp'.tag])>>)

Bound == NGrp(cont) <= MCMaxGroups

\* Nothing but a write or a delete changes what can be read.
OnlyWritesChange ==
  [][ op'.op \notin {"write", "delete"} => ViewMap(cont') = ViewMap(cont) ]_mcvars

WriteThenRead ==
  [][ (op'.op = "write" /\ resp'.tag = "written")
        => /\ AllKeys(cont') = AllKeys(cont) \cup {op'.k}
           /\ ReadVal(cont', op'.k) = op'.v
           /\ \A k \in AllKeys(cont) \ {op'.k} : ReadVal(cont', k) = ReadVal(cont, k) ]_mcvars

DeleteRemoves ==
  [][ op'.op = "delete"
        => /\ AllKeys(cont') = AllKeys(cont) \ {op'.k}
           /\ Copies(cont', op'.k) = 0
           /\ \A k \in AllKeys(cont') : ReadVal(cont', k) = ReadVal(cont, k) ]_mcvars

RejectedChangesNothing ==
  [][ resp'.tag = "ValueError" \/ (op'.op = "write" /\ resp'.tag = "CapacityError")
        => cont' = cont ]_mcvars

\* After a transferring condense only the primary is left.
CondensedToOne ==
  [][ (resp'.tag = "groups" /\ op'.op \in {"condense", "resize"} /\ op'.transfer
        /\ (op'.op = "resize" => op'.condense))
        => NGrp(cont') = 1 ]_mcvars

PrimaryListed == cont.prim \in 1..NGrp(cont)
=============================================================================
