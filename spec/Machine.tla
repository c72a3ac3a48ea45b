------------------------------ MODULE Machine ------------------------------
(***************************************************************************)
(* Executes calls of the specified algorithms step by step, on one or       *)
(* several threads, over one memory, and checks the library's guarantees    *)
(* on the design:                                                           *)
(*   Result    the result region holds the transform of every segment       *)
(*             (C01, C02, C03), whatever scratch, output and guard cells    *)
(*             held before (they start unspecified: C04, C08), for all      *)
(*             user-supplied inner transforms and under every interleaving  *)
(*             of the threads' steps (C09)                                  *)
(*   Contract  every inner call is valid and gets the scratch it            *)
(*             advertises (C05); valid calls never fail (C06)               *)
(*   Frame     every step reads and writes only inside the regions of its   *)
(*             call (C12)                                                   *)
(*   Finishes  no thread blocks (C09)                                       *)
(*   Heap      only process allocates, and frees what it allocated (C14)   *)
(*   Cheap     the operation count stays within Cost's bound (C15)          *)
(* IOEnv.SET chooses the transforms; IOEnv.BUG a design error to be found.  *)
(***************************************************************************)
EXTENDS Algorithms, Functions, TLC, IOUtils
Set == IOEnv.SET
N   == atoi(IOEnv.N)
BugName == IOEnv.BUG
Big == N > 10
PDef == IF Big THEN 4324321 ELSE 15121
MDef == IF Big THEN 720720 ELSE 5040
ZDef == IF Big THEN 2515964 ELSE 1331

Leaf(n) == {[k |-> "n", n |-> n]}
           \cup (IF n \in Butterflies THEN {[k |-> "b", n |-> n]} ELSE {})
           \cup (IF PowerOfTwo(n) THEN {[k |-> "r", n |-> n]} ELSE {})
Wrap(n, T(_)) ==
  UNION { {[k |-> "m", a |-> x, b |-> y] : x \in T(w), y \in T(n \div w)} : w \in {w \in 1..n : n % w = 0} }
  \cup UNION { {[k |-> "x", w |-> w, a |-> x] : x \in T(n \div w)} : w \in {w \in NxN : n % w = 0} }
  \cup (IF Prime(n) THEN {[k |-> "p", a |-> x] : x \in T(n - 1)} ELSE {})
  \cup (IF n % 4 = 0 THEN {[k |-> "s", a |-> x, b |-> y] : x \in T(n \div 4), y \in T(n \div 2)} ELSE {})
Naive(n) == {[k |-> "n", n |-> n]}
\* user-supplied transforms with assorted scratch demands
Users(n) == {[k |-> "u", n |-> n, ip |-> i, oop |-> o] : i \in {0, 1, n, 2 * n + 1, 4 * n + 3}, o \in {0, n, 5 * n + 2}}
Depth1(n) == Leaf(n) \cup Wrap(n, Leaf)
Depth2(n) == Wrap(n, LAMBDA l : Naive(l) \cup Wrap(l, Naive))
Depth1U(n) == Wrap(n, Users)
Some(n) == {[k |-> "u", n |-> n, ip |-> i, oop |-> o] : i \in {0, 3 * n + 1, 9 * n}, o \in {0, 7 * n + 1}}
Mid(l) == {[k |-> "u", n |-> l, ip |-> 0, oop |-> 0]}
          \cup UNION { {[k |-> "x", w |-> w, a |-> x] : x \in Some(l \div w)} : w \in {w \in {2, 3} : l % w = 0} }
          \cup (IF Prime(l) THEN {[k |-> "p", a |-> x] : x \in Some(l - 1)} ELSE {})
          \cup (IF l = 4 THEN {[k |-> "s", a |-> x, b |-> y] : x \in Some(1), y \in Some(2)} ELSE {})
Depth2U(n) == Wrap(n, Mid)

Trees == CASE Set = "depth1" -> UNION {Depth1(n) : n \in 1..N}
           [] Set = "depth2" -> UNION {Depth2(n) : n \in 1..N}
           [] Set = "users"  -> UNION {Depth1U(n) : n \in 1..N}
           [] Set = "users2" -> UNION {Depth2U(n) : n \in 1..N}
           [] Set = "few" -> LET U(n, i, o) == [k |-> "u", n |-> n, ip |-> i, oop |-> o]
                             IN  {[k |-> "x", w |-> 2, a |-> U(2, 3, 4)], [k |-> "s", a |-> U(1, 9, 2), b |-> U(2, 3, 1)], [k |-> "p", a |-> U(2, 2, 1)],
                                  [k |-> "m", a |-> U(2, 9, 3), b |-> U(2, 11, 1)], [k |-> "p", a |-> [k |-> "n", n |-> 4]], [k |-> "r", n |-> 4]}
           [] Set = "threads" -> UNION {Wrap(n, Naive) : n \in 2..N} \cup {[k |-> "r", n |-> 4], [k |-> "n", n |-> 3]}

\* threads, segments per call, surplus scratch
Threads == IF Set = "threads" THEN 2 ELSE 1
SegCounts == IF Set \in {"depth1", "users", "few"} THEN {1, 2} ELSE {1}
SharedScratch == BugName = "shared-scratch"

VARIABLES cfg, prog, pc, mem
vars == <<cfg, prog, pc, mem>>

\* every call's memory: guard | in | guard | out | guard | scratch | guard
Layout(t, mode, k, base, extra) ==
  LET n == TLen(t) * k
      s == Adv(t, mode) + extra
  IN  [in |-> Reg(base + 1, n), out |-> Reg(base + n + 2, IF mode = "oop" THEN n ELSE 0),
       scr |-> Reg(base + n + 3 + (IF mode = "oop" THEN n ELSE 0), s), top |-> base + n + 4 + (IF mode = "oop" THEN n ELSE 0) + s]

Init ==
  \E t \in Trees : \E mode \in (IF Set \in {"depth1", "few", "threads"} THEN Modes ELSE {"ip", "oop"}) : \E k \in SegCounts : \E extra \in (IF Set \in {"users", "users2", "threads", "few"} THEN {0} ELSE {0, 3}) :
  \E t2 \in (IF Threads = 2 THEN {t, [k |-> "x", w |-> 2, a |-> [k |-> "n", n |-> 2]]} ELSE {t}) :
  \E mode2 \in (IF Threads = 2 THEN {"ip", "oop"} ELSE {mode}) :
    LET l1 == Layout(t, mode, k, 0, extra)
        l2a == Layout(t2, mode2, k, l1.top, extra)
        l2 == IF SharedScratch /\ l1.scr.n >= l2a.scr.n THEN [l2a EXCEPT !.scr = l1.scr] ELSE l2a
        ls == IF Threads = 2 THEN <<l1, l2>> ELSE <<l1>>
        ts == IF Threads = 2 THEN <<t, t2>> ELSE <<t>>
        ms == IF Threads = 2 THEN <<mode, mode2>> ELSE <<mode>>
        In(th, a) == a >= ls[th].in.o /\ a < ls[th].in.o + ls[th].in.n
        inputs == UNION {{<<th, i>> : i \in 1..ls[th].in.n} : th \in 1..Threads}
        V(th) == ls[th].in.n
    IN  /\ mode = "p" => extra = 0
        /\ cfg = [t |-> ts, m |-> ms, l |-> ls]
        /\ prog = <<>>
        /\ pc = [th \in 1..Threads |-> 1]
        /\ mem = [a \in 0..(IF Threads = 2 THEN l2a.top ELSE l1.top) |->
                    LET th == IF Threads = 2 /\ a >= l1.top THEN 2 ELSE 1
                    IN  IF In(th, a) THEN [v \in 1..V(th) |-> IF a - ls[th].in.o = v - 1 THEN 1 ELSE 0] ELSE <<>>]

Start ==
  /\ prog = <<>>
  /\ prog' = [th \in 1..Threads |-> Program(cfg.t[th], cfg.m[th], cfg.l[th].in, cfg.l[th].out, cfg.l[th].scr)]
  /\ UNCHANGED <<cfg, pc, mem>>
Step(th) ==
  /\ prog # <<>>
  /\ pc[th] <= Len(prog[th])
  /\ mem' = Exec(prog[th][pc[th]], mem)
  /\ pc' = [pc EXCEPT ![th] = @ + 1]
  /\ UNCHANGED <<cfg, prog>>
Done == prog # <<>> /\ \A th \in 1..Threads : pc[th] > Len(prog[th])
Next == Start \/ (\E th \in 1..Threads : Step(th)) \/ (Done /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Finishes == <>Done

-----------------------------------------------------------------------------
ResultOf(th) == IF cfg.m[th] = "oop" THEN cfg.l[th].out ELSE cfg.l[th].in
Result ==
  prog # <<>> => \A th \in 1..Threads : pc[th] > Len(prog[th]) =>
    LET n == TLen(cfg.t[th])
        R == ResultOf(th)
    IN  \A i \in 0..(R.n - 1) :
          mem[R.o + i] = [v \in 1..R.n |-> IF (v - 1) \div n = i \div n THEN CasT((i % n) * ((v - 1) % n), n) ELSE 0]

Contract ==
  prog # <<>> => \A th \in 1..Threads : pc[th] <= Len(prog[th]) =>
    LET o == prog[th][pc[th]] IN o.op = "call" => ValidCall(o.m[1], o.m[2], o.m[3], o.m[4], o.m[5], o.m[6])

\* What the whole call costs (C15): every row of a linear step takes as many multiplications as it has coefficients,
\* and one addition less.  Butterflies and power-of-two leaves are specified by their matrices, not by how they are
\* computed, so trees with such leaves are left out.
RECURSIVE Explicit(_)
Explicit(t) == CASE t.k \in {"b", "r"} -> FALSE
                 [] t.k \in {"x", "p"} -> Explicit(t.a)
                 [] t.k \in {"m", "s"} -> Explicit(t.a) /\ Explicit(t.b)
                 [] OTHER -> TRUE
Total(f(_), k) == FoldFunctionOnSet(LAMBDA x, y : x + y, 0, [i \in 1..k |-> f(i)], 1..k)
RowOps(row) == LET c == Cardinality({j \in 1..Len(row) : row[j] # 0}) IN IF c = 0 THEN 0 ELSE 2 * c - 1
StepOps(o) == IF o.op = "lin" THEN Total(LAMBDA i : RowOps(o.m[i]), Len(o.m)) ELSE 0
Cheap ==
  (prog # <<>> /\ \A th \in 1..Threads : pc[th] = 1) => \A th \in 1..Threads :
     LET k == cfg.l[th].in.n \div TLen(cfg.t[th])
         pr == prog[th]
     IN  Explicit(cfg.t[th]) =>
           /\ Total(LAMBDA i : StepOps(pr[i]), Len(pr)) <= k * Ops(cfg.t[th])
           /\ Cardinality({i \in 1..Len(pr) : pr[i].op = "ulin"}) = k * Uses(cfg.t[th])

\* the heap (C14): only process uses it, for no more than the advertised scratch, and gives it back
CellsOf(th, kind, upto) == UNION { {prog[th][i].d[j] : j \in 1..Len(prog[th][i].d)} : i \in {i \in 1..upto : prog[th][i].op = kind} }
Heap ==
  prog # <<>> => \A th \in 1..Threads :
    LET held == CellsOf(th, "alloc", pc[th] - 1) \ CellsOf(th, "free", pc[th] - 1)
    IN  /\ cfg.m[th] # "p" => \A i \in 1..Len(prog[th]) : prog[th][i].op # "alloc"
        /\ Cardinality(held) <= Adv(cfg.t[th], "ip")
        /\ pc[th] > Len(prog[th]) => held = {}

InReg(a, r) == a >= r.o /\ a < r.o + r.n
Frame ==
  prog # <<>> => \A th \in 1..Threads : pc[th] <= Len(prog[th]) =>
    LET o == prog[th][pc[th]]
        l == cfg.l[th]
        ok(a) == InReg(a, l.in) \/ InReg(a, l.out) \/ InReg(a, l.scr)
    IN  (\A i \in 1..Len(o.d) : ok(o.d[i])) /\ (\A i \in 1..Len(o.s) : ok(o.s[i]))
=============================================================================
