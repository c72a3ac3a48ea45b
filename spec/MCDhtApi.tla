------------------------------ MODULE MCDhtApi -----------------------------
(***************************************************************************)
(* Explores the interface over a small memory and generates call sequences  *)
(* for replay.  Cells with unspecified contents hold -1.                    *)
(* Exhaustive (MCDhtApi.cfg): all sequences of at most DEPTH calls, checking *)
(* that the interface implies                                               *)
(*   Known      results of calls on specified data are specified, whatever  *)
(*              scratch and output held (C04)                               *)
(*   Batches    a call on k segments equals k calls on one segment (C03)    *)
(*   Twice      transforming twice multiplies by n (C11)                    *)
(*   Relation   every step satisfies ApiStep                                *)
(* Generating (GenApi.cfg, -simulate): random sequences, written as JSON.   *)
(***************************************************************************)
EXTENDS DhtApi, IOUtils, TLC, Json, SequencesExt, Randomization
C     == atoi(IOEnv.CELLS)
Depth == atoi(IOEnv.DEPTH)
Pr == 73
FieldFor(n) == MkField(Pr, 72, 5, n)
Field1 == FieldFor(1)
ASSUME FieldOK(Pr, 72, 5, 1, <<2, 3>>)

\* transforms: length and advertised scratch (in place, out of place)
Insts == << [n |-> 1, ip |-> 0, oop |-> 0], [n |-> 2, ip |-> 2, oop |-> 0], [n |-> 3, ip |-> 4, oop |-> 1], [n |-> 0, ip |-> 0, oop |-> 0] >>
Fields == [i \in 1..3 |-> FieldFor(Insts[i].n)]
AdvOf(i, mode) == IF mode = "oop" THEN Insts[i].oop ELSE Insts[i].ip

\* the transform on segments with unspecified cells
T(i, x) == IF \E k \in DOMAIN x : x[k] = -1 THEN [k \in DOMAIN x |-> -1] ELSE Dht(Fields[i], x)

VARIABLES mem, ops, last
vars == <<mem, ops, last>>

Init == /\ mem = [a \in 0..(C - 1) |-> (7 * a * a + 3 * a + 1) % Pr]
        /\ ops = <<>> /\ last = [k |-> "none"]

Effect(i, mode, b, o, s, m) ==
  LET n == Insts[i].n
      valid == ValidCall(n, mode, b.l, o.l, s.l, AdvOf(i, mode))
      r == ResultRegion(mode, b, o)
  IN  IF n = 0 THEN m
      ELSE IF ~valid THEN [a \in DOMAIN m |-> IF Owns(mode, b, o, s, a) THEN -1 ELSE m[a]]
      ELSE LET segs == [q \in 0..((b.l \div n) - 1) |-> T(i, Segment(m, b.o + q * n, n))]
           IN  [a \in DOMAIN m |-> IF InRegion(a, r) THEN segs[(a - r.o) \div n][(a - r.o) % n]
                                   ELSE IF Owns(mode, b, o, s, a) THEN -1 ELSE m[a]]

\* layout of a call: the regions in some order, with gaps, from a base address
Orders == << <<"b", "o", "s">>, <<"b", "s", "o">>, <<"o", "b", "s">>, <<"o", "s", "b">>, <<"s", "b", "o">>, <<"s", "o", "b">> >>
Place(op, n, adv) ==
  LET bl == op.k * n + op.e
      ol == IF op.mode = "oop" THEN bl + op.f ELSE 0
      sl == IF op.mode = "p" THEN 0 ELSE adv + op.x
      len(c) == CASE c = "b" -> bl [] c = "o" -> ol [] c = "s" -> sl
      od == Orders[op.ord]
      at1 == op.base
      at2 == at1 + len(od[1]) + op.g1
      at3 == at2 + len(od[2]) + op.g2
      start(c) == IF od[1] = c THEN at1 ELSE IF od[2] = c THEN at2 ELSE at3
  IN  [ok |-> bl >= 0 /\ ol >= 0 /\ sl >= 0 /\ at3 + len(od[3]) <= C,
       b |-> [o |-> start("b"), l |-> bl], o |-> [o |-> start("o"), l |-> ol], s |-> [o |-> start("s"), l |-> sl]]

Do(op) ==
  LET pl == Place(op, Insts[op.i].n, AdvOf(op.i, op.mode))
  IN  /\ pl.ok
      /\ mem' = Effect(op.i, op.mode, pl.b, pl.o, pl.s, mem)
      /\ ops' = Append(ops, op)
      /\ last' = [k |-> "call", i |-> op.i, mode |-> op.mode, pl |-> pl, pre |-> mem,
                  res |-> IF ValidCall(Insts[op.i].n, op.mode, pl.b.l, pl.o.l, pl.s.l, AdvOf(op.i, op.mode)) THEN "ok" ELSE "panic"]

\* exhaustive exploration: k segments plus e cells, output f cells longer, x surplus scratch
NextAll ==
  /\ Len(ops) < Depth
  /\ \E i \in {2, 3, 4}, mode \in Modes, k \in 1..2, e \in {0, 1}, f \in {0, -1}, x \in {-1, 0, 1}, base \in 0..1, ord \in {1, 4}, g \in {0, 1} :
       /\ (mode # "oop") => f = 0 /\ ord = 1
       /\ (e # 0 \/ f # 0 \/ x # 0) => base = 0 /\ g = 0
       /\ Do([i |-> i, mode |-> mode, k |-> k, e |-> e, f |-> f, x |-> x, base |-> base, ord |-> ord, g1 |-> g, g2 |-> 0])
Spec == Init /\ [][NextAll]_vars
View == <<mem, last, Len(ops)>>

Called == last.k = "call"
\* a zero-length transform does nothing, whatever it is given (C13)
Inert == (Called /\ Insts[last.i].n = 0) => last.res = "ok" /\ mem = last.pre
\* a call that is refused leaves everything outside its slices alone (C06, C12)
Refused == (Called /\ last.res = "panic") => \A a \in DOMAIN mem : Owns(last.mode, last.pl.b, last.pl.o, last.pl.s, a) \/ mem[a] = last.pre[a]
Nn == Insts[last.i].n
Rr == ResultRegion(last.mode, last.pl.b, last.pl.o)
Known == (Called /\ Nn > 0 /\ last.res = "ok" /\ \A a \in DOMAIN mem : InRegion(a, last.pl.b) => last.pre[a] # -1)
           => \A a \in DOMAIN mem : InRegion(a, Rr) => mem[a] # -1
Relation == Called => LET TT(x) == T(last.i, x)
                      IN  ApiStep(TT, Nn, AdvOf(last.i, last.mode), last.mode, last.pl.b, last.pl.o, last.pl.s, last.pre, mem, last.res)
\* the same call as two calls: first segment, then the rest
Batches ==
  (Called /\ last.res = "ok" /\ Nn > 0 /\ last.pl.b.l = 2 * Nn) =>
     LET one(r, q) == [o |-> r.o + q * Nn, l |-> IF r.l = 0 THEN 0 ELSE Nn]
         m1 == Effect(last.i, last.mode, one(last.pl.b, 0), one(last.pl.o, 0), last.pl.s, last.pre)
         m2 == Effect(last.i, last.mode, one(last.pl.b, 1), one(last.pl.o, 1), last.pl.s, m1)
     IN  m2 = mem
Twice ==
  (Called /\ Nn > 0 /\ last.res = "ok" /\ last.mode = "p" /\ \A a \in DOMAIN mem : InRegion(a, last.pl.b) => last.pre[a] # -1) =>
     LET m2 == Effect(last.i, "p", last.pl.b, last.pl.o, last.pl.s, mem)
     IN  \A a \in DOMAIN mem : InRegion(a, last.pl.b) => m2[a] = (Nn * last.pre[a]) % Pr

-----------------------------------------------------------------------------
(* generation *)
Rnd(S) == {RandomElement(S)}
NextGen ==
  \/ /\ Len(ops) < Depth
     /\ \E i \in Rnd(1..3), mode \in Rnd(Modes), k \in Rnd({0, 1, 1, 2, 3, 4}), bad \in Rnd(1..6), e \in Rnd({-1, 1}), f \in Rnd({-1, 1}), x \in Rnd({-1, 0, 1, 5}),
           base \in Rnd(0..4), ord \in Rnd(1..6), g1 \in Rnd({0, 1, 3}), g2 \in Rnd({0, 2}) :
          \E op \in {[i |-> i, mode |-> mode, k |-> k, e |-> IF bad = 1 THEN e ELSE 0, f |-> IF bad = 2 /\ mode = "oop" THEN f ELSE 0,
                      x |-> IF x = -1 /\ bad # 3 THEN 0 ELSE x, base |-> base, ord |-> ord, g1 |-> g1, g2 |-> g2]} :
             IF Place(op, Insts[i].n, AdvOf(i, mode)).ok /\ AdvOf(i, mode) + op.x >= 0
             THEN Do(op)
             ELSE UNCHANGED <<mem, last>> /\ ops' = Append(ops, [op EXCEPT !.mode = "ip", !.k = 1, !.e = 0, !.f = 0, !.x = 0])
  \/ /\ Len(ops) = Depth
     /\ Serialize(ToJson(ops) \o "\n", IOEnv.OUT, [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
     /\ ops' = Append(ops, "end") /\ UNCHANGED <<mem, last>>
SpecGen == Init /\ [][NextGen]_vars
=============================================================================
