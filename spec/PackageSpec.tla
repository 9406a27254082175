---------------------------- MODULE PackageSpec ----------------------------
(***************************************************************************)
(* Packages of classes and properties, and the engines made from them.     *)
(*                                                                         *)
(* world = the classes and property classes a program defines:             *)
(*   classes[c] = [ns, py (its Python name), up (the classes it inherits   *)
(*   from, itself included), order (the same in the order python asks      *)
(*   them), says (whether it defines "who" it is), native (names of its    *)
(*   own properties)]                                                      *)
(*   props[p] = [ns, name]                                                 *)
(* A package has copies of classes; for the class of each namespace:       *)
(*   names = its properties, anc = the classes of the package that it      *)
(*   inherits from (itself included), cls = the class it is a copy of (two *)
(*   classes can stand for the same namespace), id and line = its identity *)
(*   and those of all package classes it descends from (itself included):  *)
(*   a package made from others still inherits what these inherited.       *)
(*   map = the properties linked to it.                                    *)
(* An engine is a sequence of packages, and the classes they add up to.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES world, pkgs, engs, ans
kvars == <<world, pkgs, engs, ans>>

Ok == [tag |-> "ok"]
Err(t) == [tag |-> t]
Range(s) == {s[j] : j \in DOMAIN s}

NameOf(ns) == (CHOOSE p \in Range(world.props) : p.ns = ns).name
Natives(c) == UNION {world.classes[a].native : a \in world.classes[c].up}
Links(map, ns) == IF ns \in DOMAIN map THEN map[ns] ELSE {}

\* What a class answers when several of those it inherits from define it.
Who(c) == LET s == SelectSeq(world.classes[c].order, LAMBDA a : world.classes[a].says)
          IN  IF s = <<>> THEN "" ELSE world.classes[s[1]].py
\* A copy answers the same, at least if all the classes it inherits from were
\* copied with it.
Whole(objs, n) ==
  LET up == world.classes[objs[n].cls].up IN
  /\ objs[n].anc = {world.classes[a].ns : a \in up}
  /\ {objs[m].cls : m \in objs[n].anc} = up
Original(c) == [py |-> world.classes[c].py, names |-> Natives(c), anc |-> {}]

\* A package of the classes cs and the property classes ps (numbers).
Fresh(k, ns, cs, ps, map) ==
  LET nsOf(c) == world.classes[c].ns
      obj(c) ==
        LET up == world.classes[c].up \cap cs IN
        [py |-> world.classes[c].py, cls |-> c,
         anc |-> {nsOf(a) : a \in up}, id |-> <<k, nsOf(c)>>,
         line |-> {<<k, nsOf(a)>> : a \in up},
         names |-> Natives(c) \cup
           UNION {{NameOf(l) : l \in Links(map, nsOf(a))} : a \in up}]
  IN  [ns |-> ns,
       objs |-> [n \in {nsOf(c) : c \in cs} |-> obj(CHOOSE c \in cs : nsOf(c) = n)],
       props |-> {world.props[p].ns : p \in ps}, map |-> map]

\* Every name used by the mapping is that of something in the package.
Sound(cs, ps, map) ==
  LET all == {world.classes[c].ns : c \in cs} \cup {world.props[p].ns : p \in ps}
  IN  \A n \in DOMAIN map : n \in all /\ map[n] \subseteq all

\* Two packages together: where both define something the second one does;
\* a link made by either holds for a class and all that inherit from it.
\* The classes, each a copy: with the ancestors found among them.
Copies(k, objs) ==
  [n \in DOMAIN objs |->
    LET anc == {m \in DOMAIN objs : objs[m].id \in objs[n].line} IN
    [objs[n] EXCEPT !.anc = anc, !.id = <<k, n>>,
                    !.line = @ \cup {<<k, m>> : m \in anc}]]
Sum(k, p, q) ==
  LET map == [n \in DOMAIN p.map \cup DOMAIN q.map |-> Links(p.map, n) \cup Links(q.map, n)]
      objs == Copies(k, q.objs @@ p.objs)
  IN  [ns |-> p.ns, props |-> p.props \cup q.props, map |-> map,
       objs |-> [n \in DOMAIN objs |->
         [objs[n] EXCEPT !.names = @ \cup
            UNION {{NameOf(l) : l \in Links(map, a)} : a \in objs[n].anc}]]]

\* What remains without another package.  A class may or may not still have
\* the properties that were removed, or that it had from a removed class.
Rest(k, p, q) ==
  LET left == DOMAIN p.objs \ DOMAIN q.objs
      props == p.props \ q.props
  IN  [ns |-> p.ns, props |-> props,
       objs |-> Copies(k, [n \in left |-> p.objs[n]]),
       map |-> [n \in DOMAIN p.map \cap left |-> p.map[n] \ q.props]]
Kept(p, q, n) ==
  p.objs[n].names \ ({NameOf(l) : l \in q.props} \cup
     UNION {{NameOf(l) : l \in Links(p.map, a)} : a \in p.objs[n].anc \cap DOMAIN q.objs})

RECURSIVE SumAll(_)
SumAll(s) == IF Len(s) = 1 THEN s[1]
             ELSE Sum(-Len(s), SumAll(SubSeq(s, 1, Len(s) - 1)), s[Len(s)])

NewPackage(ns, cs, ps, map) ==
  /\ IF Sound(cs, ps, map)
     THEN pkgs' = Append(pkgs, Fresh(Len(pkgs) + 1, ns, cs, ps, map)) /\ ans' = Ok
     ELSE pkgs' = pkgs /\ ans' = Err("ValueError")
  /\ UNCHANGED <<world, engs>>

Add(p, q) ==
  /\ {p, q} \subseteq DOMAIN pkgs
  /\ pkgs' = Append(pkgs, Sum(Len(pkgs) + 1, pkgs[p], pkgs[q])) /\ ans' = Ok
  /\ UNCHANGED <<world, engs>>

\* names[n] = the properties the class n has in the result.
Subtract(p, q, names) ==
  /\ {p, q} \subseteq DOMAIN pkgs
  /\ LET r == Rest(Len(pkgs) + 1, pkgs[p], pkgs[q]) IN
     /\ DOMAIN names = DOMAIN r.objs
     /\ \A n \in DOMAIN names :
          Kept(pkgs[p], pkgs[q], n) \subseteq names[n] /\ names[n] \subseteq r.objs[n].names
     /\ pkgs' = Append(pkgs, [r EXCEPT !.objs = [n \in DOMAIN @ |->
                                 [@[n] EXCEPT !.names = names[n]]]])
  /\ ans' = Ok /\ UNCHANGED <<world, engs>>

Engine(s) ==
  /\ IF s = <<>> THEN engs' = engs /\ ans' = Err("ValueError")
     ELSE engs' = Append(engs, [of |-> s, all |-> SumAll(s)]) /\ ans' = Ok
  /\ UNCHANGED <<world, pkgs>>

Without(s, nss) == SelectSeq(s, LAMBDA p : p.ns \notin nss)
Spaces(s) == {p.ns : p \in Range(s)}

NewEngine(ps) ==
  /\ Range(ps) \subseteq DOMAIN pkgs
  /\ Engine([j \in DOMAIN ps |-> pkgs[ps[j]]])
AddPackage(e, p) ==
  /\ e \in DOMAIN engs /\ p \in DOMAIN pkgs /\ Engine(Append(engs[e].of, pkgs[p]))
AddEngine(e, f) == {e, f} \subseteq DOMAIN engs /\ Engine(engs[e].of \o engs[f].of)
DropPackage(e, p) ==
  /\ e \in DOMAIN engs /\ p \in DOMAIN pkgs
  /\ Engine(Without(engs[e].of, {pkgs[p].ns}))
DropEngine(e, f) ==
  /\ {e, f} \subseteq DOMAIN engs
  /\ Engine(Without(engs[e].of, Spaces(engs[f].of)))

\* Wrong kinds of arguments, and attempts to rename a package.
Refuse(tag) == UNCHANGED <<world, pkgs, engs>> /\ ans' = Err(tag)

\* What a package has under some names; 0 for nothing.
Lookup(p, nss) ==
  /\ p \in DOMAIN pkgs
  /\ ans' = [tag |-> "got",
             py |-> [j \in DOMAIN nss |->
                IF nss[j] \in DOMAIN pkgs[p].objs THEN pkgs[p].objs[nss[j]].py
                ELSE IF nss[j] \in pkgs[p].props THEN "prop" ELSE "none"]]
  /\ UNCHANGED <<world, pkgs, engs>>

\* An object of class c, as the program defined it, handed out by an object
\* of package p: it becomes one of the package's, if that has the class, and
\* keeps what it holds.
Adopt(p, c) ==
  LET n == world.classes[c].ns IN
  /\ p \in DOMAIN pkgs
  /\ ans' = IF n \in DOMAIN pkgs[p].objs /\ pkgs[p].objs[n].cls = c
            THEN [tag |-> "package", names |-> pkgs[p].objs[n].names]
            ELSE [tag |-> "same", names |-> Natives(c)]
  /\ UNCHANGED <<world, pkgs, engs>>

\* The namespaces an engine reads as an object, and the class it becomes.
Reads(e, ns) ==
  /\ e \in DOMAIN engs
  /\ ans' = IF ns \in DOMAIN engs[e].all.objs
            THEN [tag |-> "obj", py |-> engs[e].all.objs[ns].py]
            ELSE Err("ValueError")
  /\ UNCHANGED <<world, pkgs, engs>>
=============================================================================
