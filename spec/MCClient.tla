------------------------------ MODULE MCClient ------------------------------
(* Small servers: two clients of one storage, or one of two; one id. *)
EXTENDS ClientSpec, Json

CONSTANTS MCClients, MCStorages, MCVersions, MCEmit
VARIABLE op
mcvars == <<clvars, tvars0, cvars, op>>

Two == {1, 2}
One == {1}
K == <<97>>
L == <<98>>
V == [t |-> "int", n |-> 0]

Old == [grps |-> <<[caps |-> <<2>>, strict |-> TRUE,
                    store |-> PutAll(EmptyStore, <<<<K, V>>>>)]>>, prim |-> 1]

\* New containers are small here.
SmallDb(strict) == [grps |-> <<MkGroup(<<2>>, strict)>>, prim |-> 1]

Init ==
  /\ up = TRUE
  /\ srv = [s \in MCStorages |-> IF s = 2 THEN <<Old>> ELSE <<>>]
  /\ cls = [c \in MCClients |-> Away] /\ ans = RNone /\ op = [op |-> "init"]
  /\ hist = <<>> /\ conns = 0 /\ out = 0 /\ cont = 0 /\ resp = 0

Steps == {[op |-> "create", k |-> K, v |-> V], [op |-> "delete", k |-> K],
          [op |-> "read", k |-> K, d |-> <<>>]}
Wholes == {<<[op |-> "update", k |-> K, v |-> V], [op |-> "update", k |-> L, v |-> V]>>}
Room(c) == Newest(cls[c].s) < MCVersions

Next ==
  /\ UNCHANGED <<cvars, tvars0>>
  /\ \/ Start /\ op' = [op |-> "start"]
     \/ Stop /\ op' = [op |-> "stop"]
     \/ Make /\ op' = [op |-> "make"]
     \/ \E c \in MCClients :
          \/ Disconnect(c) /\ op' = [op |-> "disconnect", c |-> c]
          \/ \E s \in MCStorages, ro, strict, missing, sync \in BOOLEAN :
               /\ (Cardinality(MCClients) > 1 => strict = TRUE)
               /\ \E o \in Connections(s, ro, strict, missing) :
                    Connect(c, s, ro, strict, missing, sync, o.r)
               /\ op' = [op |-> "connect", c |-> c, s |-> s, ro |-> ro,
                         strict |-> strict, missing |-> missing, sync |-> sync]
          \/ Connected(c) /\ \E e \in Steps :
               /\ Room(c) \/ e.op = "read"
               /\ \E o \in Single(c, e) : On_(c, e, o.r, o.h[Len(o.h)])
               /\ op' = [op |-> "on", c |-> c, e |-> e]
          \/ Connected(c) /\ Room(c) /\ \E es \in Wholes, how \in {"ok", "raise", "down", "bounce"} :
               /\ how = "bounce" => up
               /\ \E o \in Whole(c, es, how, TRUE) : Block(c, es, how, o.r, o.h[Len(o.h)])
               /\ op' = [op |-> "block", c |-> c, es |-> es, how |-> how]

Spec == Init /\ [][Next]_mcvars
View == <<up, srv, cls>>
Emit ==
  \/ ~MCEmit
  \/ PrintT(<<"EDGE", ToJson([s |-> ToString(View), o |-> op',
                              t |-> ToString(View'),
                              i |-> (up /\ op.op = "init")])>>)

-----------------------------------------------------------------------------
\* What was stored stays part of the history, whoever connects or leaves.
HistoryGrows ==
  [][\A s \in MCStorages :
       /\ Len(srv'[s]) \in {Len(srv[s]), Len(srv[s]) + 1}
       /\ \A n \in DOMAIN srv[s] : srv'[s][n] = srv[s][n]]_mcvars
\* Nothing is stored while the server is away, or by one who may only read.
Harmless ==
  [][~up => srv' = srv]_mcvars
ReadersWriteNothing ==
  [][(op'.op \in {"on", "block"} /\ cls[op'.c].ro) => srv' = srv]_mcvars
\* An answer other than a failure means that it is stored.
Acknowledged ==
  [][(op'.op = "on" /\ op'.e.op = "create" /\ ans'.tag = "done")
       => LET s == cls[op'.c].s IN
          srv'[s] # srv[s] /\ K \in AllKeys(srv'[s][Len(srv'[s])])]_mcvars
\* Nobody goes back in time.
Forward ==
  [][\A c \in MCClients : (Connected(c) /\ cls'[c].s # 0) => cls'[c].at >= cls[c].at]_mcvars
\* Changes of one do not undo those of another.
AllOrNothing ==
  [][(op'.op = "block" /\ op'.how # "bounce" /\ srv' # srv) =>
       LET s == cls[op'.c].s now == srv'[s][Len(srv'[s])] IN
       {K, L} \subseteq AllKeys(now) /\ ans' = RNone]_mcvars
=============================================================================
