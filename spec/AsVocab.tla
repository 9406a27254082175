------------------------------ MODULE AsVocab ------------------------------
(***************************************************************************)
(* The ActivityStreams 2.0 vocabulary: types, what they extend, which      *)
(* properties they have, and which values these take; and the written      *)
(* forms of references and points in time.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

NS == "https://www.w3.org/ns/activitystreams"
Range(s) == {s[j] : j \in DOMAIN s}

Extends ==
  LET of(parent, kids) == [k \in kids |-> {parent}] IN
  ("Object" :> {}) @@ ("Link" :> {}) @@ ("Mention" :> {"Link"}) @@
  of("Object", {"Activity", "Collection", "Application", "Group", "Organization", "Person",
     "Service", "Relationship", "Article", "Document", "Note", "Event", "Place", "Profile",
     "Tombstone"}) @@
  of("Activity", {"IntransitiveActivity", "Accept", "Add", "Create", "Delete", "Follow",
     "Ignore", "Join", "Leave", "Like", "Offer", "Reject", "Remove", "Undo", "Update", "View",
     "Listen", "Read", "Move", "Announce", "Flag", "Dislike"}) @@
  of("IntransitiveActivity", {"Arrive", "Travel", "Question"}) @@
  ("TentativeAccept" :> {"Accept"}) @@ ("TentativeReject" :> {"Reject"}) @@
  ("Invite" :> {"Offer"}) @@ ("Block" :> {"Ignore"}) @@
  of("Collection", {"OrderedCollection", "CollectionPage"}) @@
  ("OrderedCollectionPage" :> {"OrderedCollection", "CollectionPage"}) @@
  of("Document", {"Audio", "Image", "Video", "Page"})
Types == DOMAIN Extends

RECURSIVE AncestorsOf(_)
AncestorsOf(t) == {t} \cup UNION {AncestorsOf(p) : p \in Extends[t]}
\* (written as a constant so that it is computed once)
Ancestors == [t \in Types |-> AncestorsOf(t)]
Is(t, kinds) == Ancestors[t] \cap kinds # {}

Own ==
  [Object |-> {"id", "type", "attachment", "attributedTo", "audience", "content", "name",
     "endTime", "generator", "icon", "image", "inReplyTo", "location", "preview", "published",
     "replies", "startTime", "summary", "tag", "updated", "url", "to", "bto", "cc", "bcc",
     "mediaType", "duration"},
   Link |-> {"id", "type", "href", "rel", "mediaType", "name", "hreflang", "height", "width",
     "preview"},
   Activity |-> {"actor", "object", "target", "result", "origin", "instrument"},
   Collection |-> {"totalItems", "current", "first", "last", "items"},
   OrderedCollection |-> {"orderedItems"},
   CollectionPage |-> {"partOf", "next", "prev"},
   OrderedCollectionPage |-> {"startIndex"},
   Question |-> {"oneOf", "anyOf", "closed"},
   Relationship |-> {"subject", "object", "relationship"},
   Place |-> {"accuracy", "altitude", "latitude", "longitude", "radius", "units"},
   Profile |-> {"describes"},
   Tombstone |-> {"formerType", "deleted"}]
Props == [t \in Types |-> UNION {Own[a] : a \in Ancestors[t] \cap DOMAIN Own}]

\* kinds: the kinds of values; nodes: the types of objects; one: a single
\* value only; refs: text that is a reference stands for a link to it
AnyNode == {"Object", "Link"}
Rule(kinds, nodes, one, refs) == [kinds |-> kinds, nodes |-> nodes, one |-> one, refs |-> refs]
Rules ==
  LET of(ns, r) == [n \in ns |-> r] IN
  of({"attachment", "attributedTo", "audience", "generator", "icon", "image", "inReplyTo",
      "location", "preview", "to", "bto", "cc", "bcc", "actor", "object", "target", "result",
      "origin", "instrument", "items", "orderedItems", "oneOf", "anyOf"},
     Rule({}, AnyNode, FALSE, TRUE)) @@
  ("tag" :> Rule({"map"}, AnyNode, FALSE, TRUE)) @@
  ("subject" :> Rule({}, AnyNode, TRUE, TRUE)) @@
  of({"current", "first", "last", "next", "prev"},
     Rule({}, {"CollectionPage", "Link"}, TRUE, TRUE)) @@
  ("partOf" :> Rule({}, {"Collection", "Link"}, TRUE, TRUE)) @@
  ("replies" :> Rule({}, {"Collection"}, TRUE, TRUE)) @@
  ("url" :> Rule({"str"}, {"Link"}, FALSE, TRUE)) @@
  ("closed" :> Rule({"dt", "bool"}, AnyNode, FALSE, TRUE)) @@
  of({"relationship", "formerType"}, Rule({"str"}, {"Object"}, FALSE, FALSE)) @@
  ("describes" :> Rule({}, {"Object"}, TRUE, FALSE)) @@
  of({"id", "mediaType", "units", "href", "hreflang"}, Rule({"str"}, {}, TRUE, FALSE)) @@
  of({"content", "summary", "rel", "type"}, Rule({"str"}, {}, FALSE, FALSE)) @@
  ("name" :> Rule({"str", "map"}, {}, FALSE, FALSE)) @@
  of({"accuracy", "altitude", "latitude", "longitude", "radius"},
     Rule({"num", "float"}, {}, TRUE, FALSE)) @@
  of({"height", "width", "totalItems", "startIndex"}, Rule({"num"}, {}, TRUE, FALSE)) @@
  of({"endTime", "published", "startTime", "updated", "deleted"}, Rule({"dt"}, {}, TRUE, FALSE)) @@
  ("duration" :> Rule({"dur", "str"}, {}, TRUE, FALSE))
NonNegative == {"radius", "height", "width", "totalItems", "startIndex"}

----------------------------------------------------------------------------
(* References *)
At(s, j) == SubSeq(s, j, j)
Starts(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
Chars(s) == {At(s, j) : j \in 1..Len(s)}
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Letters == {"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q",
  "r", "s", "t", "u", "v", "w", "x", "y", "z", "A", "B", "C", "D", "E", "F", "G", "H", "I", "J",
  "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z"}
\* What comes before the path.
Host(s) ==
  LET ends == {j \in 1..Len(s) : At(s, j) \in {"/", "?", "#"}}
  IN  IF ends = {} THEN s ELSE SubSeq(s, 1, (CHOOSE j \in ends : \A h \in ends : j <= h) - 1)
\* Schemes may be in upper case.
StartsAny(s, p) ==
  LET up == [h |-> "H", t |-> "T", p |-> "P", s |-> "S"] IN
  /\ Len(s) >= Len(p)
  /\ \A j \in 1..Len(p) :
       At(s, j) \in {At(p, j)} \cup (IF At(p, j) \in DOMAIN up THEN {up[At(p, j)]} ELSE {})
IsUrl(s, secure) ==
  LET rest == IF StartsAny(s, "https://") THEN SubSeq(s, 9, Len(s))
              ELSE IF StartsAny(s, "http://") /\ ~secure THEN SubSeq(s, 8, Len(s)) ELSE ""
      h == Host(rest)
  IN  h # "" /\ Chars(h) \subseteq Letters \cup Digits \cup {"-", "_", ".", ":"}
IsAddress(s) ==
  LET a == IF Starts(s, "acct:") THEN SubSeq(s, 6, Len(s)) ELSE s
      ats == {j \in 1..Len(a) : At(a, j) = "@"}
  IN  /\ Cardinality(ats) = 1
      /\ LET j == CHOOSE j \in ats : TRUE IN j > 1 /\ j < Len(a)
      \* no empty parts between dots
      /\ \A j \in 1..Len(a) : At(a, j) = "." =>
           /\ j > 1 /\ At(a, j - 1) \notin {".", "@"}
           /\ j < Len(a) /\ At(a, j + 1) # "@"
      /\ Chars(a) \subseteq Letters \cup Digits \cup {"-", "_", ".", "@"}
IsRef(s) == IsUrl(s, FALSE) \/ IsAddress(s)

----------------------------------------------------------------------------
(* Points in time: days since 0000-03-01 and seconds and microseconds of   *)
(* the day, in UTC.  A moment is given by its fields; off = minutes ahead  *)
(* of UTC.                                                                 *)
DaysTo(y, m, d) ==
  LET yy == IF m <= 2 THEN y - 1 ELSE y
      mm == IF m <= 2 THEN m + 9 ELSE m - 3
  IN  yy * 365 + yy \div 4 - yy \div 100 + yy \div 400 + (153 * mm + 2) \div 5 + d - 1
Instant(v) ==
  LET secs == v.h * 3600 + v.mi * 60 + v.sec - v.off * 60
  IN  <<DaysTo(v.y, v.mo, v.d) + secs \div 86400, secs % 86400, v.us>>

\* How long a written period is, in days and seconds; years have 365 days
\* and months 30.
Length(v) ==
  LET secs == v.h * 3600 + v.mi * 60 + v.sec
      days == v.y * 365 + v.mo * 30 + v.d
  IN  <<days + secs \div 86400, secs % 86400>>
=============================================================================
