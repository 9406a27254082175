----------------------------- MODULE ClientSpec -----------------------------
(***************************************************************************)
(* A server that offers storages by name, and clients that use the         *)
(* containers in them over the network.                                    *)
(*                                                                         *)
(* up = is the server running?                                             *)
(* srv[s] = the versions of the container in storage s, the last one being *)
(*   stored; none if there is no container yet                             *)
(* cls[c] = [s, ro, sync, at]: which storage (0 if not connected), whether *)
(*   it may only read, whether it asks the server before each transaction, *)
(*   and the oldest version it may still be reading                        *)
(* ans = the answer to the last step                                       *)
(***************************************************************************)
EXTENDS TxnSpec

VARIABLES up, srv, cls, ans
clvars == <<up, srv, cls, ans>>

NewDb(strict) == CNew(100000, 5000, strict)
Away == [s |-> 0, ro |-> FALSE, sync |-> TRUE, at |-> 0]
Connected(c) == cls[c].s # 0
Newest(s) == Len(srv[s])

SameBag(a, b) ==
  /\ Len(a) = Len(b)
  /\ \A j \in 1..Len(a) :
       Cardinality({n \in 1..Len(a) : a[n] = a[j]})
         = Cardinality({n \in 1..Len(b) : b[n] = a[j]})
SameResp(r, s) ==
  /\ r.tag = s.tag
  /\ IF r.tag = "deleted" THEN SameBag(r.vals, s.vals) ELSE r = s

-----------------------------------------------------------------------------
Start == ~up /\ up' = TRUE /\ ans' = RNone /\ UNCHANGED <<srv, cls>>
Stop == up /\ up' = FALSE /\ ans' = RNone /\ UNCHANGED <<srv, cls>>

\* What connecting may end with: the answer and the versions in the storage.
Connections(s, ro, strict, missing) ==
  IF ~up THEN {[r |-> RErr("ClientDisconnected"), h |-> srv[s]]}
  ELSE IF srv[s] # <<>> THEN {[r |-> RNone, h |-> srv[s]]}
  ELSE IF ~missing
       THEN {[r |-> RErr(x), h |-> srv[s]] :
             x \in {"IncompatibleDatabaseError"} \cup
                   (IF ro THEN {"ReadOnlyError"} ELSE {})}
  ELSE IF ro THEN {[r |-> RErr("ReadOnlyError"), h |-> srv[s]]}
  ELSE {[r |-> RNone, h |-> <<NewDb(strict)>>]}

Connect(c, s, ro, strict, missing, sync, r) ==
  /\ ~Connected(c)
  /\ \E o \in Connections(s, ro, strict, missing) :
       /\ o.r = r
       /\ srv' = [srv EXCEPT ![s] = o.h]
       /\ cls' = IF r = RNone
                 THEN [cls EXCEPT ![c] = [s |-> s, ro |-> ro, sync |-> sync,
                                          at |-> Len(o.h)]]
                 ELSE cls
  /\ up' = up /\ ans' = r

Disconnect(c) ==
  /\ Connected(c)
  /\ cls' = [cls EXCEPT ![c] = Away] /\ UNCHANGED <<up, srv>> /\ ans' = RNone

DisconnectAll ==
  /\ cls' = [c \in DOMAIN cls |-> Away] /\ UNCHANGED <<up, srv>> /\ ans' = RNone

\* Databases cannot be made over the network.
Make == UNCHANGED <<up, srv, cls>> /\ ans' = RErr("NotImplementedError")

-----------------------------------------------------------------------------
\* The versions a transaction of c may work on.
Versions(c) ==
  IF up /\ cls[c].sync THEN {Newest(cls[c].s)} ELSE cls[c].at..Newest(cls[c].s)

\* A sequence of operations: the first one that is refused ends it.
RECURSIVE Fold(_, _, _)
Fold(v, es, wrote) ==
  IF es = <<>> THEN [c |-> v, r |-> RNone, wrote |-> wrote]
  ELSE LET x == DoIt(v, Head(es))
       IN  IF x.r.tag \in Refusals \cup {"KeyError"}
           THEN [c |-> v, r |-> x.r, wrote |-> FALSE]
           ELSE Fold(x.c, Tail(es), wrote \/ Wrote(v, Head(es), x))

\* What may become of a transaction that took version b to v with answer r:
\* the answer, the versions in the storage, and the oldest version that the
\* client may read from then on.
Ends(c, b, v, r, wrote, lost) ==
  LET s == cls[c].s
      h == srv[s]
      now == h[Len(h)]
      same(q) == [r |-> q, h |-> h, at |-> b]
      gone == {same(RErr("ClientDisconnected"))}
      done == {[r |-> r, h |-> Append(h, Rebase(h[b], v, now)), at |-> Len(h) + 1]}
      clash == {same(RErr("ConflictError"))}
  IN  (IF ~wrote THEN {same(r)} \cup (IF up THEN {} ELSE gone)
       ELSE IF cls[c].ro THEN {same(RErr("ReadOnlyError"))} \cup (IF up THEN {} ELSE gone)
       ELSE IF ~up THEN gone
       ELSE IF b = Len(h) THEN done
       ELSE IF Clash(Differ(h[b], v), Differ(h[b], now)) THEN clash
       ELSE done \cup clash)
      \cup (IF lost THEN gone \cup clash ELSE {})

\* Reading may be answered from what the client has, also without a server.
\* (A version is looked at once, so that a read within an operation agrees.)
Single(c, e) ==
  UNION {LET x == DoIt(srv[cls[c].s][b], e)
         IN  IF e.op \notin Writing \/ x.r.tag \in Refusals
             THEN Ends(c, b, srv[cls[c].s][b], x.r, FALSE, FALSE)
             ELSE Ends(c, b, x.c, x.r, Wrote(srv[cls[c].s][b], e, x), FALSE)
         : b \in Versions(c)}

Whole(c, es, how, lost) ==
  UNION {LET x == Fold(srv[cls[c].s][b], es, FALSE)
         IN  IF x.r # RNone THEN Ends(c, b, x.c, x.r, FALSE, FALSE)
             ELSE IF how = "raise"
             THEN Ends(c, b, x.c, RErr("Stop"), FALSE, FALSE)
             ELSE Ends(c, b, x.c, RNone, x.wrote, lost)
         : b \in Versions(c)}

\* The outcome with the least certain knowledge among those that answer r and
\* leave now in the storage.
Takes(c, os, r, now) ==
  LET fit == {o \in os : SameResp(r, o.r) /\ o.h[Len(o.h)] = now}
      o == CHOOSE o \in fit : \A p \in fit : o.at <= p.at
  IN  /\ fit # {}
      /\ srv' = [srv EXCEPT ![cls[c].s] = o.h]
      /\ cls' = [cls EXCEPT ![c].at = IF @ > o.at THEN @ ELSE o.at]
      /\ ans' = r

On_(c, e, r, now) == Connected(c) /\ Takes(c, Single(c, e), r, now) /\ up' = up

\* A block; meanwhile the server may go away ("down"), or be restarted
\* ("bounce"), which the client may or may not get over.
Block(c, es, how, r, now) ==
  /\ Connected(c)
  /\ IF how = "down"
     THEN /\ up /\ up' = FALSE
          /\ LET s == Whole(c, es, "ok", FALSE)
                 \* all that needed the server fails
                 os == {o \in s : o.h = srv[cls[c].s] /\ o.r # RNone}
                       \cup {[r |-> RErr("ClientDisconnected"),
                              h |-> srv[cls[c].s], at |-> cls[c].at]}
                       \cup {o \in s : o.h = srv[cls[c].s]}
             IN Takes(c, os, r, now)
     ELSE up' = up /\ Takes(c, Whole(c, es, how, how = "bounce"), r, now)

-----------------------------------------------------------------------------
ClientTypeOK ==
  \A c \in DOMAIN cls :
    Connected(c) => /\ srv[cls[c].s] # <<>>
                    /\ cls[c].at \in 1..Newest(cls[c].s)
=============================================================================
