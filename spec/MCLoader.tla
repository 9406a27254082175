------------------------------ MODULE MCLoader ------------------------------
(* Exhaustive exploration of LoaderSpec. *)
EXTENDS LoaderSpec, Json
CONSTANTS MCEmit
VARIABLES op, first
mcvars == <<lvars, op, first>>

U(scheme, host, hosts, n) ==
  [text |-> scheme \o "://" \o hosts \o n, scheme |-> scheme, host |-> host,
   site |-> scheme \o "://" \o hosts]
A == <<97, 46, 99>>
Urls == {U("https", A, "a.c", "/1"), U("http", A, "a.c", "/1"),
         U("https", <<97, 64, 99>>, "a@c", "/1")}

Body(n) == [n |-> n]
R0(n) == [up |-> TRUE, status |-> 200, json |-> TRUE, body |-> Body(n), type |-> <<LD>>,
          links |-> <<>>, final |-> "https://a.c/1"]
Alt == [rel |-> "alternate", abs |-> FALSE, to |-> "/2", type |-> LD]
Ctx == [rel |-> ContextRel, abs |-> TRUE, to |-> "https://a.c/ctx", type |-> ""]
Answers == {R0(1), R0(2), [R0(3) EXCEPT !.status = 503],
            [R0(4) EXCEPT !.json = FALSE],
            [R0(5) EXCEPT !.type = <<>>, !.links = <<Alt, Ctx>>],
            [R0(6) EXCEPT !.type = <<"application/json">>, !.links = <<Alt, Ctx, Ctx>>],
            [R0(7) EXCEPT !.links = <<Ctx, Ctx, Alt>>], Nothing}
H == [accept |-> <<>>, extra |-> <<>>]

Init == web = <<>> /\ cache = <<>> /\ asked = <<>> /\ ans = Done
        /\ op = [op |-> "init"] /\ first = <<>>
Next ==
  \/ \E u \in Urls, r \in Answers :
       Serve(u.text, r) /\ op' = [op |-> "serve", u |-> u, w |-> r] /\ first' = first
  \/ \E u \in Urls, secure \in BOOLEAN :
       Load(u, secure, H) /\ op' = [op |-> "load", u |-> u, secure |-> secure, h |-> H]
       /\ first' = first
  \/ \E u \in Urls :
       /\ CachedLoad(u, TRUE, H) /\ op' = [op |-> "cached", u |-> u, secure |-> TRUE, h |-> H]
       /\ first' = IF ans'.tag = "loaded" /\ u.text \notin DOMAIN first
                   THEN [t \in DOMAIN first \cup {u.text} |->
                           IF t = u.text THEN ans'.rec ELSE first[t]]
                   ELSE first
Spec == Init /\ [][Next]_mcvars
View == <<web, cache, first>>
Emit == \/ ~MCEmit
        \/ PrintT(<<"EDGE", ToJson([s |-> ToString(View), o |-> op', t |-> ToString(View'),
                                    i |-> (TLCGet("level") = 1)])>>)

\* Once loaded, a document stays what it was and is not asked for again.
AskedOnce ==
  [][ (op'.op = "cached" /\ op'.u.text \in DOMAIN first)
        => asked' = <<>> /\ ans' = Loaded(first[op'.u.text]) ]_mcvars
\* A failure is not remembered.
FailuresForgotten ==
  [][ (op'.op = "cached" /\ ans' = Refused) => cache' = cache ]_mcvars
\* What may not be asked for is not.
NothingForbidden ==
  [][ \A j \in 1..Len(asked') : Legal(op'.u, op'.secure) ]_mcvars
\* Errors never become documents.
NoErrors ==
  [][ (op'.op = "load" /\ ans'.tag = "loaded") => web[op'.u.text].status < 400 ]_mcvars
=============================================================================
