------------------------------- MODULE AsSpec -------------------------------
(***************************************************************************)
(* ActivityStreams objects: read from JSON, made and changed by programs,  *)
(* written as JSON, and followed along their links.                        *)
(*                                                                         *)
(* objs = the objects a program has; web = url -> the document it serves   *)
(* (a tagged value), or "down" if it serves none.                          *)
(*                                                                         *)
(* Values are tagged.  Documents and programs have none, bool (b), num (n),*)
(* float (f), str (s), list (l), map (m, pairs), dt and dur (fields) and   *)
(* node (t = the type, v = name -> value).  Text that is a moment is       *)
(* tagged dt in documents as well.                                         *)
(***************************************************************************)
EXTENDS AsVocab

VARIABLES objs, web, ans
avars == <<objs, web, ans>>

None == [k |-> "none"]
Ok == [tag |-> "ok"]
Err(t) == [tag |-> t]
Str(s) == [k |-> "str", s |-> s]
Num(n) == [k |-> "num", n |-> n]
Bad == [k |-> "bad"]

Has(m, key) == \E j \in DOMAIN m : m[j][1] = key
Val(m, key) == IF Has(m, key) THEN m[CHOOSE j \in DOMAIN m : m[j][1] = key][2] ELSE None

----------------------------------------------------------------------------
(* Values of properties.  Bad stands for one that is refused.              *)
IsLink(v) == v.k = "node" /\ Is(v.t, {"Link"})
\* what a property may hold besides objects
Fine(n, v) ==
  /\ v.k \in Rules[n].kinds
  /\ n \in NonNegative => IF v.k = "num" THEN v.n >= 0 ELSE At(v.f, 1) # "-"

RECURSIVE Keep(_, _), MakeLink(_), Make(_, _)
\* The value a property has after it was set to v.
Keep(n, v) ==
  LET r == Rules[n] IN
  CASE v.k = "none" -> None
    [] v.k = "list" ->
         IF r.one THEN Bad
         ELSE LET l == [j \in DOMAIN v.l |-> Keep(n, v.l[j])]
              IN  IF \E j \in DOMAIN l : l[j] = Bad THEN Bad ELSE [k |-> "list", l |-> l]
    [] v.k = "node" -> IF v.t \in Types /\ Is(v.t, r.nodes) THEN v ELSE Bad
    [] v.k = "str" /\ r.refs /\ IsRef(v.s) ->
         IF "Link" \in r.nodes THEN MakeLink(<<<<"href", v>>>>) ELSE Bad
    [] v.k = "map" /\ r.refs /\ Val(v.m, "href").k = "str" /\ IsUrl(Val(v.m, "href").s, FALSE) ->
         LET l == MakeLink(v.m) IN IF "Link" \in r.nodes THEN l ELSE Bad
    [] OTHER -> IF Fine(n, v) THEN v ELSE Bad
MakeLink(m) == Make("Link", m)

\* An object of type t made with the values in m (pairs; other names do not
\* matter): all of them have to be acceptable.
Make(t, m) ==
  LET given(n) == IF n = "type" THEN None ELSE Keep(n, Val(m, n))
      len(n) == IF Val(m, n).k = "list" THEN Len(Val(m, n).l) ELSE 0
      total == IF given("totalItems").k = "num" /\ given("totalItems").n # 0
               THEN given("totalItems")
               ELSE Num(IF len("orderedItems") > 0 /\ "orderedItems" \in Props[t]
                        THEN len("orderedItems") ELSE len("items"))
      value(n) ==
        CASE n = "type" -> IF t \in {"Object", "Link"} THEN Keep("type", Val(m, "type"))
                           ELSE Str(t)
          [] n = "totalItems" -> IF given(n) = Bad THEN Bad ELSE total
          [] n = "startIndex" -> IF given(n) = None THEN Num(0) ELSE given(n)
          [] OTHER -> given(n)
      all == [n \in Props[t] |-> value(n)]
  IN  IF \E n \in Props[t] : all[n] = Bad THEN Bad
      ELSE [k |-> "node", t |-> t, v |-> [n \in {x \in Props[t] : all[x] # None} |-> all[n]]]

----------------------------------------------------------------------------
(* Documents *)
\* The type a document says it has, by any of the ways to write it.  (Where
\* documents have "kind" or "av:", their context defines these.)
TypeOf(m) ==
  LET s == IF Has(m, "type") THEN Val(m, "type")
           ELSE IF Has(m, "@type") THEN Val(m, "@type") ELSE Val(m, "kind")
      one == IF s.k = "list" /\ Len(s.l) = 1 THEN s.l[1] ELSE s
      name == IF one.k # "str" THEN ""
              ELSE IF Starts(one.s, "as:") THEN SubSeq(one.s, 4, Len(one.s))
              ELSE IF Starts(one.s, "av:") THEN SubSeq(one.s, 4, Len(one.s))
              ELSE IF Starts(one.s, NS \o "#") THEN SubSeq(one.s, Len(NS) + 2, Len(one.s))
              ELSE one.s
  IN  name
Typed(m) == TypeOf(m) \in Types

RECURSIVE Unpack(_), Parse(_)
Unpack(v) ==
  CASE v.k = "map" -> IF Typed(v.m) THEN Parse(v.m)
                      ELSE [k |-> "map", m |-> [j \in DOMAIN v.m |-> <<v.m[j][1], Unpack(v.m[j][2])>>]]
    [] v.k = "list" -> [k |-> "list", l |-> [j \in DOMAIN v.l |-> Unpack(v.l[j])]]
    [] OTHER -> v
\* a bad value anywhere inside makes the whole bad
RECURSIVE AnyBad(_)
AnyBad(v) ==
  CASE v.k = "bad" -> TRUE
    [] v.k = "list" -> \E j \in DOMAIN v.l : AnyBad(v.l[j])
    [] v.k = "map" -> \E j \in DOMAIN v.m : AnyBad(v.m[j][2])
    [] OTHER -> FALSE
Parse(m) ==
  IF ~Typed(m) THEN Bad
  ELSE LET t == TypeOf(m)
           used == SelectSeq(m, LAMBDA x : x[1] \in Props[t])
           all == [j \in DOMAIN used |-> <<used[j][1], Unpack(used[j][2])>>]
       IN  IF \E j \in DOMAIN all : AnyBad(all[j][2]) THEN Bad ELSE Make(t, all)

----------------------------------------------------------------------------
(* Two values are the same if they say the same; the second may be text    *)
(* that says how long a period is (p).                                     *)
RECURSIVE Same(_, _)
Same(a, b) ==
  IF a.k = "dur" /\ b.k = "str" THEN "p" \in DOMAIN b /\ Length(a) = Length(b.p)
  ELSE
  /\ a.k = b.k
  /\ CASE a.k = "dt" -> Instant(a) = Instant(b)
       [] a.k = "dur" -> Length(a) = Length(b)
       [] a.k = "str" -> a.s = b.s
       [] a.k = "list" -> Len(a.l) = Len(b.l) /\ \A j \in DOMAIN a.l : Same(a.l[j], b.l[j])
       [] a.k = "map" ->
            /\ Len(a.m) = Len(b.m)
            /\ \A j \in DOMAIN a.m : \E h \in DOMAIN b.m :
                 a.m[j][1] = b.m[h][1] /\ Same(a.m[j][2], b.m[h][2])
       [] a.k = "node" ->
            /\ a.t = b.t /\ DOMAIN a.v = DOMAIN b.v
            /\ \A n \in DOMAIN a.v : Same(a.v[n], b.v[n])
       [] OTHER -> a = b

\* What a value is in JSON: links are only where they lead to.
RECURSIVE Write(_, _), WriteNode(_)
Write(n, v) ==
  CASE v.k = "list" -> [k |-> "list", l |-> [j \in DOMAIN v.l |-> Write(n, v.l[j])]]
    [] IsLink(v) -> IF "href" \in DOMAIN v.v THEN v.v.href ELSE None
    [] v.k = "node" -> WriteNode(v)
    [] v.k = "map" -> [k |-> "map", m |-> [j \in DOMAIN v.m |-> <<v.m[j][1], Write("", v.m[j][2])>>]]
    [] OTHER -> v
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
WriteNode(o) ==
  LET shown == {n \in DOMAIN o.v : Write(n, o.v[n]) # None}
      s == SeqOf(shown)
  IN  [k |-> "map", m |-> [j \in DOMAIN s |-> <<s[j], Write(s[j], o.v[s[j]])>>]]
Document(o, ctx) ==
  LET d == WriteNode(o) IN [k |-> "map", m |-> <<<<"@context", ctx>>>> \o d.m]

----------------------------------------------------------------------------
\* Values programs give may contain objects they make for it.
RECURSIVE Given(_)
Given(v) ==
  CASE v.k = "new" -> Make(v.t, [j \in DOMAIN v.m |-> <<v.m[j][1], Given(v.m[j][2])>>])
    [] v.k = "list" -> [k |-> "list", l |-> [j \in DOMAIN v.l |-> Given(v.l[j])]]
    [] OTHER -> v

\* Reading a document: it stays as it was, and nothing but contexts is loaded.
Read(doc, ctx) ==
  LET o == IF doc.k = "map" THEN Parse(doc.m) ELSE Bad IN
  /\ objs' = IF o = Bad THEN objs ELSE Append(objs, [o |-> o, ctx |-> ctx])
  /\ ans' = IF o = Bad THEN Err("ValueError") ELSE Ok
  /\ UNCHANGED web

New(t, m) ==
  LET o == Make(t, [j \in DOMAIN m |-> <<m[j][1], Given(m[j][2])>>]) IN
  /\ objs' = IF o = Bad THEN objs ELSE Append(objs, [o |-> o, ctx |-> Str(NS)])
  /\ ans' = IF o = Bad THEN Err("ValueError") ELSE Ok
  /\ UNCHANGED web

\* A value that is refused leaves what was there.
Set(i, n, v) ==
  /\ i \in DOMAIN objs /\ n \in Props[objs[i].o.t]
  /\ LET x == Keep(n, Given(v)) IN
     /\ objs' = IF x = Bad THEN objs
                ELSE LET old == objs[i].o.v IN
                     [objs EXCEPT ![i].o.v =
                       [m \in (DOMAIN old \cup {n}) \ (IF x = None THEN {n} ELSE {}) |->
                          IF m = n THEN x ELSE old[m]]]
     /\ ans' = IF x = Bad THEN Err("ValueError") ELSE Ok
  /\ UNCHANGED web

\* Writing loads nothing.
Write2Json(i) ==
  /\ i \in DOMAIN objs
  /\ ans' = [tag |-> "out", v |-> Document(objs[i].o, objs[i].ctx)]
  /\ UNCHANGED <<objs, web>>

\* Reading what was just written: the same object, links reduced to their
\* target.
Again(i) ==
  /\ i \in DOMAIN objs
  /\ LET d == WriteNode(objs[i].o)
         o == Parse(d.m)
     IN  ans' = IF o = Bad THEN Err("ValueError") ELSE [tag |-> "obj", v |-> o]
  /\ UNCHANGED <<objs, web>>

Serves(url) == IF url \in DOMAIN web THEN web[url] ELSE [k |-> "down"]
\* A link is opened when it is evaluated: what it leads to now, or the link
\* itself if that is nothing.
Follow(v) ==
  IF v.k = "node" /\ v.t = "Link" /\ "href" \in DOMAIN v.v
  THEN LET d == Serves(v.v.href.s)
           o == IF d.k = "map" THEN Parse(d.m) ELSE Bad
       IN  IF o = Bad THEN v ELSE o
  ELSE v
Opens(v) == IF v.k = "node" /\ v.t = "Link" /\ "href" \in DOMAIN v.v THEN {v.v.href.s} ELSE {}
Value(i, n) == IF n \in DOMAIN objs[i].o.v THEN objs[i].o.v[n] ELSE None
Get(i, n) ==
  /\ i \in DOMAIN objs /\ n \in Props[objs[i].o.t]
  /\ ans' = [tag |-> "obj", v |-> IF Rules[n].refs THEN Follow(Value(i, n)) ELSE Value(i, n)]
  /\ UNCHANGED <<objs, web>>
\* What a reading may ask for.
MayAsk(i, n) == IF Rules[n].refs THEN Opens(Value(i, n)) ELSE {}
\* Going along several properties.
RECURSIVE Path(_, _)
Path(v, ns) ==
  IF ns = <<>> THEN v
  ELSE IF v.k # "node" \/ ns[1] \notin DOMAIN v.v THEN None
  ELSE LET x == v.v[ns[1]] IN
       Path(IF Rules[ns[1]].refs THEN Follow(x) ELSE x, Tail(ns))
RECURSIVE PathAsks(_, _)
PathAsks(v, ns) ==
  IF ns = <<>> \/ v.k # "node" \/ ns[1] \notin DOMAIN v.v THEN {}
  ELSE LET x == v.v[ns[1]] IN
       IF Rules[ns[1]].refs THEN Opens(x) \cup PathAsks(Follow(x), Tail(ns))
       ELSE PathAsks(x, Tail(ns))
Walk(i, ns) ==
  /\ i \in DOMAIN objs
  /\ ans' = [tag |-> "obj", v |-> Path(objs[i].o, ns)]
  /\ UNCHANGED <<objs, web>>

\* Members of a collection, in order.
Members(i) ==
  /\ i \in DOMAIN objs /\ Is(objs[i].o.t, {"Collection"})
  /\ ans' = [tag |-> "obj", v |-> IF Value(i, "items").k = "list" THEN Value(i, "items")
                                  ELSE [k |-> "list", l |-> <<>>]]
  /\ UNCHANGED <<objs, web>>

Publish(url, d) ==
  /\ web' = (url :> d) @@ web /\ ans' = Ok /\ UNCHANGED objs

\* The tool the properties are built with: a rule of any kinds of values, for
\* one value or also lists of any depth, with further checks on every value.
RECURSIVE Accepts(_, _)
Accepts(r, v) ==
  IF v.k = "list"
  THEN (~r.one \/ "list" \in Range(r.kinds)) /\ \A j \in DOMAIN v.l : Accepts(r, v.l[j])
  ELSE IF v.k = "none" THEN r.none
  ELSE /\ v.k \in Range(r.kinds)
       /\ "nonnegative" \in Range(r.checks) =>
            CASE v.k = "num" -> v.n >= 0
              [] v.k = "float" -> At(v.f, 1) # "-"
              [] OTHER -> TRUE
       /\ "short" \in Range(r.checks) => (v.k = "str" => Len(v.s) <= 5)
Accept(r, v) ==
  /\ ans' = IF Accepts(r, v) THEN [tag |-> "obj", v |-> v] ELSE Err("ValueError")
  /\ UNCHANGED <<objs, web>>

Valid(s, secure) ==
  /\ ans' = [tag |-> "valid", url |-> IsUrl(s, secure), acct |-> IsAddress(s)]
  /\ UNCHANGED <<objs, web>>
=============================================================================
