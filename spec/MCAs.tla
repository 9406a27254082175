-------------------------------- MODULE MCAs --------------------------------
(* One object of every type: empty and with one property varied, or with a  *)
(* value for every property, made by a program or read from a document.     *)
EXTENDS AsSpec, Json
CONSTANTS MCAll  \* vary a property on every type that has it, or only on one
VARIABLES focus, op
mcvars == <<avars, focus, op>>

S(x) == Str(x)
U == S("https://a.example/x")
Doc(t) == [k |-> "map", m |-> <<<<"type", S(t)>>, <<"name", S("n")>>>>]
O(t, m) == [k |-> "new", t |-> t, m |-> m]
L(l) == [k |-> "list", l |-> l]
M(m) == [k |-> "map", m |-> m]
DT(h, off, us) == [k |-> "dt", y |-> 2024, mo |-> 2, d |-> 29, h |-> h, mi |-> 30, sec |-> 5,
                   us |-> us, off |-> off]
Common ==
  <<None, S("plain"), U, S("acct:who@a.example"), Num(7), Num(0 - 3), [k |-> "float", f |-> "2.5"],
    DT(10, 0, 0), DT(23, 0 - 330, 250000), [k |-> "dur", y |-> 1, mo |-> 2, d |-> 3, h |-> 4, mi |-> 5, sec |-> 6],
    M(<<<<"en", S("x")>>>>), M(<<<<"href", U>>, <<"name", S("l")>>>>), L(<<>>), L(<<U, None, U>>),
    L(<<S("a"), S("b")>>), O("Note", <<<<"name", S("n")>>>>), O("Collection", <<<<"items", L(<<U>>)>>>>),
    O("OrderedCollectionPage", <<>>), O("Link", <<<<"href", U>>, <<"rel", S("me")>>>>),
    O("Mention", <<<<"href", U>>>>), L(<<O("Person", <<>>), U>>), L(<<O("Place", <<>>), Num(1)>>)>>
Yes == [k |-> "bool", b |-> TRUE]
Samples == [n \in DOMAIN Rules |->
  IF n = "closed" THEN Append(Common, Yes)
  ELSE IF n \in {"type", "id"} THEN <<S("plain"), U, Num(7), None>> ELSE Common]
\* (constants are computed once)
Good == [n \in DOMAIN Rules |->
  SelectSeq(Samples[n], LAMBDA v : v # None /\ Keep(n, Given(v)) # Bad /\ v # L(<<>>)
                                   /\ ~(v.k = "list" /\ n = "closed"))]

\* who to vary a property on
Owners(n) ==
  IF MCAll THEN {t \in Types : n \in Props[t]}
  ELSE {t \in DOMAIN Own : n \in Own[t]}
Varied(t) == {n \in Props[t] : t \in Owners(n) /\ (n = "type" => t \in {"Object", "Link"})
                /\ ~(n = "object" /\ Is(t, {"IntransitiveActivity"}))}

\* a value for every property
Pick(n, j) == Good[n][((j - 1) % Len(Good[n])) + 1]
\* (only one of two that exclude each other; a count that is right)
Skip(t, j) ==
  {"totalItems", "type"} \cup (IF j % 2 = 0 THEN {"items", "oneOf"} ELSE {"orderedItems", "anyOf"})
  \cup (IF Is(t, {"IntransitiveActivity"}) THEN {"object"} ELSE {})
Full(t, j) ==
  LET s == SeqOf(Props[t] \ Skip(t, j)) IN [h \in DOMAIN s |-> <<s[h], Pick(s[h], j)>>]
FullDoc(t, j, spelling) ==
  LET o == Make(t, LET f == Full(t, j) IN [h \in DOMAIN f |-> <<f[h][1], Given(f[h][2])>>])
      d == WriteNode(o)
  IN  [k |-> "map", m |-> <<spelling>> \o SelectSeq(d.m, LAMBDA x : x[1] # "type")]
Spellings(t) ==
  {<<"type", S(t)>>, <<"@type", S(t)>>, <<"type", L(<<S(t)>>)>>, <<"type", S("as:" \o t)>>,
   <<"@type", L(<<S(NS \o "#" \o t)>>)>>}

Init == objs = <<>> /\ web = <<>> /\ ans = Ok /\ focus = "" /\ op = [op |-> "init"]
Fresh == objs = <<>>
Next ==
  \/ \E t \in Types :
       \/ /\ Fresh /\ New(t, <<>>) /\ focus' = "any"
          /\ op' = [op |-> "new", t |-> t, m |-> <<>>]
       \/ \E j \in 1..4 : /\ Fresh /\ New(t, Full(t, j)) /\ focus' = "none"
                          /\ op' = [op |-> "new", t |-> t, m |-> Full(t, j)]
       \/ \E j \in 1..2, sp \in Spellings(t) : LET d == FullDoc(t, j, sp) IN
            /\ Fresh /\ Read(d, S(NS)) /\ focus' = "none"
            /\ op' = [op |-> "read", d |-> d, ctx |-> S(NS)]
  \/ /\ objs # <<>> /\ focus # "none"
     /\ \E n \in Varied(objs[1].o.t) : \E j \in DOMAIN Samples[n] :
          /\ focus \in {"any", n} /\ Set(1, n, Samples[n][j]) /\ focus' = n
          /\ op' = [op |-> "set", i |-> 1, n |-> n, v |-> Samples[n][j]]
  \/ /\ objs # <<>> /\ UNCHANGED focus
     /\ \/ Write2Json(1) /\ op' = [op |-> "write", i |-> 1]
        \/ Again(1) /\ op' = [op |-> "again", i |-> 1]
        \/ /\ focus \in Props[objs[1].o.t] /\ Get(1, focus)
           /\ op' = [op |-> "get", i |-> 1, n |-> focus]
Spec == Init /\ [][Next]_mcvars
\* (only to tell the vocabulary)
VocabSpec == Init /\ [][FALSE]_mcvars
View == <<objs, focus>>
Emit == PrintT(<<"EDGE", ToJson([s |-> ToString(<<objs, focus>>), o |-> op',
                                 t |-> ToString(<<objs', focus'>>), i |-> (objs = <<>>)])>>)
NoEmit == TRUE
ASSUME PrintT(<<"INFO", ToJson([props |-> Props, rules |-> Rules, anc |-> Ancestors])>>)

\* What an object holds could be set again, and nothing else is held.
Valid1 == \A i \in DOMAIN objs : LET o == objs[i].o IN
  /\ DOMAIN o.v \subseteq Props[o.t]
  /\ \A n \in DOMAIN o.v : o.v[n] # None /\ Keep(n, o.v[n]) = o.v[n]
\* no count that reading would fill in is missing
Counted(o) ==
  LET has(n) == n \in DOMAIN o.v IN
  /\ Is(o.t, {"Collection"}) =>
       has("totalItems") /\ (o.v.totalItems.n = 0 =>
         \A n \in {"items", "orderedItems"} : has(n) => (o.v[n].k # "list" \/ o.v[n].l = <<>>))
  /\ o.t = "OrderedCollectionPage" => has("startIndex")
\* links that JSON can show
RECURSIVE Plain(_)
Plain(v) ==
  CASE IsLink(v) -> "href" \in DOMAIN v.v /\ IsRef(v.v.href.s)
    [] v.k = "list" -> \A j \in DOMAIN v.l : Plain(v.l[j])
    [] v.k = "node" -> Counted(v) /\ (v.t # "Object" \/ "type" \in DOMAIN v.v) /\ \A n \in DOMAIN v.v : Plain(v.v[n])
    [] OTHER -> TRUE
\* What was written can be read, and says the same when written again; and
\* without links of its own it is the same object.
RECURSIVE Linkless(_)
Linkless(v) ==
  CASE IsLink(v) -> v.t = "Link" /\ DOMAIN v.v = {"href"}
    [] v.k = "list" -> \A j \in DOMAIN v.l : Linkless(v.l[j])
    [] v.k = "node" -> \A n \in DOMAIN v.v : Linkless(v.v[n])
    [] OTHER -> TRUE
RoundTrip == \A i \in DOMAIN objs : LET o == objs[i].o  d == WriteNode(o)  p == Parse(d.m) IN
  (~IsLink(o) /\ Plain(o) /\ (o.t \in {"Object"} => "type" \in DOMAIN o.v /\ TypeOf(d.m) = o.t)) =>
     /\ p # Bad /\ Same(WriteNode(p), d)
     /\ Linkless(o) => Same(o, p)
\* Refusals and readings change nothing.
Stays == [][(ans'.tag = "ValueError" \/ op'.op \in {"write", "again", "get"}) => objs' = objs]_mcvars
=============================================================================
