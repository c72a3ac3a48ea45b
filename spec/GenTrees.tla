----------------------------- MODULE GenTrees ------------------------------
(***************************************************************************)
(* Enumerates every legal composition ("tree") of transforms for lengths    *)
(* 1..N, up to a nesting depth D, and writes them to OUT as JSON:           *)
(* one record [n, d, t] per tree, d the least depth at which it appears.    *)
(* Notation: n<k> naive, b<k> butterfly, r<k> radix4, m(W,H) mixed radix,   *)
(* x<k>(A) k x n, p(A) Rader, s(Q,H) split radix.                           *)
(***************************************************************************)
EXTENDS DhtContract, TLC, Json, IOUtils, SequencesExt

N == atoi(IOEnv.N)
D == atoi(IOEnv.D)

Leaf == [ n \in 1..N |->
   {"n" \o ToString(n)}
   \cup (IF n \in Butterflies THEN {"b" \o ToString(n)} ELSE {})
   \cup (IF PowerOfTwo(n) THEN {"r" \o ToString(n)} ELSE {}) ]

Wrap(T) == [ n \in 1..N |->
   Leaf[n]
   \cup UNION { { "m(" \o a \o "," \o b \o ")" : a \in T[w], b \in T[n \div w] } : w \in {w \in 1..n : n % w = 0} }
   \cup UNION { { "x" \o ToString(k) \o "(" \o a \o ")" : a \in T[n \div k] } : k \in {k \in NxN : n % k = 0} }
   \cup (IF n > 1 /\ CtorAccepts("rader", 0, <<n - 1>>) THEN { "p(" \o a \o ")" : a \in T[n - 1] } ELSE {})
   \cup (IF n % 4 = 0 THEN { "s(" \o a \o "," \o b \o ")" : a \in T[n \div 4], b \in T[n \div 2] } ELSE {}) ]

T0 == Leaf
T1 == Wrap(T0)
T2 == Wrap(T1)
Depth(n) == IF D = 0 THEN T0[n] ELSE IF D = 1 THEN T1[n] ELSE T2[n]

All == FoldLeft(LAMBDA acc, n : acc \o SetToSeq({[n |-> n, t |-> t] : t \in Depth(n)}), <<>>, [i \in 1..N |-> i])

VARIABLE done
Init == done = FALSE
Next == ~done /\ done' = ndJsonSerialize(IOEnv.OUT, All) /\ UNCHANGED <<>>
Spec == Init /\ [][Next]_done
=============================================================================
