------------------------------ MODULE MCBuild ------------------------------
(***************************************************************************)
(* Building, dropping and using transforms (C07, C16): a registry of named  *)
(* live transforms.  A composite is built from the transforms that some     *)
(* names denote at that moment and keeps them, whatever happens to the      *)
(* names later.  What a transform computes is a function of how it was      *)
(* built (its tree), of nothing else: not of what was built, refused,       *)
(* dropped or used before.                                                  *)
(*                                                                          *)
(* The library may keep constants it has computed in a cache; IOEnv.KEY     *)
(* says under which key: "none", "tree" (sound), or "len" / "mod" (two      *)
(* design errors, which break Right).                                       *)
(* Exhaustive: MCBuild.cfg.  Random histories for replay: GenBuild.cfg.     *)
(***************************************************************************)
EXTENDS Cost, TLC, IOUtils, Json, Randomization

K     == atoi(IOEnv.NAMES)
Depth == atoi(IOEnv.DEPTH)
Key   == IOEnv.KEY
NMax  == 120
Names == 1..K

VARIABLES reg,    \* name -> a live transform: its tree, its length, the constants it works with; or None
          cache,  \* key -> constants
          ops     \* the history
vars == <<reg, cache, ops>>
None == [k |-> "none"]
Live == {i \in Names : reg[i] # None}

Init == reg = [i \in Names |-> None] /\ cache = <<>> /\ ops = <<>>

\* the constants an algorithm needs: they depend on the algorithm and its length
Const(t) == <<t.k, TLen(t)>>
KeyOf(t) == CASE Key = "tree" -> Const(t) [] Key = "len" -> TLen(t) [] Key = "mod" -> <<t.k, TLen(t) % 4>> [] OTHER -> 0

\* a request: constructor, argument, the names of the inner transforms
Lens(r) == [q \in 1..Len(r.kids) |-> reg[r.kids[q]].len]
Tree(r) ==
  LET T(q) == reg[r.kids[q]].t
  IN CASE r.ctor = "naive" -> [k |-> "n", n |-> r.arg]
       [] r.ctor = "butterfly" -> [k |-> "b", n |-> r.arg]
       [] r.ctor = "radix4" -> [k |-> "r", n |-> r.arg]
       [] r.ctor = "nxn" -> [k |-> "x", w |-> r.arg, a |-> T(1)]
       [] r.ctor = "mixed" -> [k |-> "m", a |-> T(1), b |-> T(2)]
       [] r.ctor = "rader" -> [k |-> "p", a |-> T(1)]
       [] r.ctor = "split" -> [k |-> "s", a |-> T(1), b |-> T(2)]
Accepted(r) == CtorAccepts(r.ctor, r.arg, Lens(r))

New(name, r) ==
  IF Accepted(r)
  THEN LET t == Tree(r)
           hit == Key # "none" /\ KeyOf(t) \in DOMAIN cache
           c == IF hit THEN cache[KeyOf(t)] ELSE Const(t)
       IN  /\ reg' = [reg EXCEPT ![name] = [k |-> "live", t |-> t, len |-> CtorLen(r.ctor, r.arg, Lens(r)), c |-> c]]
           /\ cache' = IF Key = "none" \/ hit THEN cache ELSE (KeyOf(t) :> c) @@ cache
           /\ ops' = Append(ops, [op |-> "new", id |-> name, r |-> r])
  ELSE /\ reg' = [reg EXCEPT ![name] = None]       \* refused: the name denotes nothing
       /\ ops' = Append(ops, [op |-> "new", id |-> name, r |-> r])
       /\ UNCHANGED cache
Drop(name) == reg[name] # None /\ reg' = [reg EXCEPT ![name] = None] /\ ops' = Append(ops, [op |-> "drop", id |-> name]) /\ UNCHANGED cache
Use(name, mode) == reg[name] # None /\ ops' = Append(ops, [op |-> "use", id |-> name, mode |-> mode]) /\ UNCHANGED <<reg, cache>>

-----------------------------------------------------------------------------
(* exhaustive exploration *)
Requests(ns) ==
       {[ctor |-> "naive", arg |-> n, kids |-> <<>>] : n \in {0, 1, 2, 4}}
  \cup {[ctor |-> "butterfly", arg |-> n, kids |-> <<>>] : n \in {1, 2, 4}}
  \cup {[ctor |-> "radix4", arg |-> n, kids |-> <<>>] : n \in {0, 2, 3}}
  \cup {[ctor |-> "nxn", arg |-> w, kids |-> <<i>>] : w \in {2, 3}, i \in ns}
  \cup {[ctor |-> "rader", arg |-> 0, kids |-> <<i>>] : i \in ns}
  \cup {[ctor |-> c, arg |-> 0, kids |-> <<i, j>>] : c \in {"mixed", "split"}, i \in ns, j \in ns}
NextAll == /\ Len(ops) < Depth
           /\ \/ \E name \in Names : \E r \in {r \in Requests(Live) : CtorLen(r.ctor, r.arg, Lens(r)) <= NMax} : New(name, r)
              \/ \E name \in Names : Drop(name)
Spec == Init /\ [][NextAll]_vars
View == <<reg, cache, Len(ops)>>

\* every live transform has the documented length and works with its own constants
Right == \A i \in Live : reg[i].len = TLen(reg[i].t) /\ reg[i].c = Const(reg[i].t)
\* other transforms are unaffected by an action on one name
Others == [][\A i \in Names : i # ops'[Len(ops')].id => reg'[i] = reg[i]]_vars

-----------------------------------------------------------------------------
(* random histories *)
Rnd(S) == RandomElement(S)
Nice(n) == n = 0 \/ (n <= NMax /\ 10080 % n = 0)
Pick ==
  LET c == Rnd({"naive", "butterfly", "radix4", "nxn", "nxn", "mixed", "rader", "split", "x1", "x2", "x3", "x4"})
      i == IF Live = {} THEN 0 ELSE Rnd(Live)
      j == IF Live = {} THEN 0 ELSE Rnd(Live)
      halves == {q \in Live : i > 0 /\ reg[q].len = 2 * reg[i].len}
      ok == Rnd(1..5) > 1
  IN CASE c = "naive" \/ Live = {} -> [ctor |-> "naive", arg |-> Rnd({1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 14, 15, 20, 21}), kids |-> <<>>]
       [] c = "butterfly" -> [ctor |-> c, arg |-> Rnd(Butterflies), kids |-> <<>>]
       [] c \in {"radix4", "x1"} -> [ctor |-> "radix4", arg |-> IF ok THEN Rnd({1, 2, 4, 8, 16, 32}) ELSE Rnd({3, 5, 6, 7, 9, 12, 24}), kids |-> <<>>]
       [] c \in {"nxn", "x2"} -> [ctor |-> "nxn", arg |-> Rnd(NxN), kids |-> <<i>>]
       [] c \in {"mixed", "x3"} -> [ctor |-> "mixed", arg |-> 0, kids |-> <<i, j>>]
       [] c = "rader" -> [ctor |-> "rader", arg |-> 0, kids |-> <<i>>]
       [] c \in {"split", "x4"} -> [ctor |-> "split", arg |-> 0, kids |-> IF ok /\ halves # {} THEN <<i, Rnd(halves)>> ELSE <<i, j>>]
NextGen ==
  \/ /\ Len(ops) < Depth
     /\ \E x \in {Rnd(1..10)} :
          IF x <= 5 \/ Live = {}
          THEN \E r \in {Pick} : \E name \in {IF Live # Names /\ Rnd(1..4) > 1 THEN Rnd(Names \ Live) ELSE Rnd(Names)} :
                 IF Nice(CtorLen(r.ctor, r.arg, Lens(r))) THEN New(name, r) ELSE New(name, [ctor |-> "naive", arg |-> Rnd({2, 3, 5, 7}), kids |-> <<>>])
          ELSE \E name \in {Rnd(Live)} : IF x = 6 THEN Drop(name) ELSE \E m \in {Rnd(Modes)} : Use(name, m)
  \/ /\ Len(ops) = Depth
     /\ Serialize(ToJson(ops) \o "\n", IOEnv.OUT, [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
     /\ ops' = Append(ops, "end") /\ UNCHANGED <<reg, cache>>
SpecGen == Init /\ [][NextGen]_vars
=============================================================================
