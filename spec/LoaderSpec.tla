----------------------------- MODULE LoaderSpec -----------------------------
(***************************************************************************)
(* Loading documents from the web, for JSON-LD processing.                 *)
(*                                                                         *)
(* web[text] = what is served under a url at the moment:                   *)
(*   [up, status, json, body, type, links, final]: nothing unless up;      *)
(*   type <<>> or <<content type>>, links = headers [rel, abs, to, type],  *)
(*   final = the url that answered in the end.                             *)
(* cache = what the caching loaders keep, a function from url texts.       *)
(* Urls are [text, scheme, host, site] with host = sequence of characters. *)
(* asked = the requests of the last step, ans = its answer.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES web, cache, asked, ans
lvars == <<web, cache, asked, ans>>

LD == "application/ld+json"
JsonTypes == {"application/json", LD, "application/activity+json",
              "application/problem_2+json"}
ContextRel == "http://www.w3.org/ns/json-ld#context"
LoaderAccept == "application/ld+json, application/activity+json"
GetAccept == "application/ld+json, application/activity+json, application/json"

\* letters, digits, and - . : _
HostChar(c) == \/ c \in 48..57 \/ c \in 65..90 \/ c \in 97..122
               \/ c \in {45, 46, 58, 95}
Legal(u, secure) ==
  /\ u.scheme \in (IF secure THEN {"https"} ELSE {"http", "https"})
  /\ u.host # <<>> /\ \A j \in 1..Len(u.host) : HostChar(u.host[j])

Nothing == [up |-> FALSE]
Served(u) == IF u.text \in DOMAIN web THEN web[u.text] ELSE Nothing

TypeOf(r) == IF r.type = <<>> THEN "application/octet-stream" ELSE r.type[1]
Links(r, rel) == SelectSeq(r.links, LAMBDA l : l.rel = rel)
Target(u, l) == IF l.abs THEN l.to ELSE u.site \o l.to

\* An answer that a document can be made of.
Good(r) ==
  /\ r.up /\ r.status < 400 /\ r.json
  /\ TypeOf(r) # LD => Len(Links(r, ContextRel)) < 2

Record(u, r) ==
  LET ctx == Links(r, ContextRel)
      alt == Links(r, "alternate")
      away == alt # <<>> /\ alt[1].type = LD /\ TypeOf(r) \notin JsonTypes
  IN [contentType |-> IF away THEN LD ELSE TypeOf(r),
      contextUrl |-> IF ctx # <<>> /\ TypeOf(r) # LD THEN <<ctx[1].to>> ELSE <<>>,
      documentUrl |-> IF away THEN Target(u, alt[1]) ELSE r.final,
      document |-> r.body]

Loaded(rec) == [tag |-> "loaded", rec |-> rec]
Refused == [tag |-> "JsonLdError"]
Done == [tag |-> "ok"]

\* Headers of one's own replace those of a loader.
Own(h, default) == IF h.accept # <<>> THEN h.accept[1]
                   ELSE IF h.extra # <<>> THEN "*/*" ELSE default
Request(u, accept, extra) == [url |-> u.text, accept |-> accept, extra |-> extra]

-----------------------------------------------------------------------------
Serve(text, r) ==
  /\ web' = [t \in DOMAIN web \cup {text} |-> IF t = text THEN r ELSE web[t]]
  /\ asked' = <<>> /\ ans' = Done /\ UNCHANGED cache

Load(u, secure, h) ==
  /\ UNCHANGED <<web, cache>>
  /\ asked' = IF Legal(u, secure) THEN <<Request(u, Own(h, LoaderAccept), h.extra)>> ELSE <<>>
  /\ ans' = IF Legal(u, secure) /\ Good(Served(u)) THEN Loaded(Record(u, Served(u)))
            ELSE Refused

Keep(u, rec) == [t \in DOMAIN cache \cup {u.text} |->
                   IF t = u.text THEN rec ELSE cache[t]]

CachedLoad(u, secure, h) ==
  /\ UNCHANGED web
  /\ IF u.text \in DOMAIN cache
     THEN asked' = <<>> /\ ans' = Loaded(cache[u.text]) /\ UNCHANGED cache
     ELSE /\ asked' = IF Legal(u, secure)
                      THEN <<Request(u, Own(h, LoaderAccept), h.extra)>> ELSE <<>>
          /\ IF Legal(u, secure) /\ Good(Served(u))
             THEN ans' = Loaded(Record(u, Served(u))) /\ cache' = Keep(u, Record(u, Served(u)))
             ELSE ans' = Refused /\ UNCHANGED cache

\* A plain request; headers of one's own are added.
Get(u, h, raw) ==
  LET r == Served(u) IN
  /\ UNCHANGED <<web, cache>>
  /\ asked' = <<Request(u, IF h.accept # <<>> THEN h.accept[1] ELSE GetAccept, h.extra)>>
  /\ ans' = IF ~r.up THEN [tag |-> "failed"]
            ELSE IF raw THEN [tag |-> "raw", status |-> r.status]
            ELSE IF r.json THEN [tag |-> "got", body |-> r.body]
            ELSE [tag |-> "failed"]
=============================================================================
