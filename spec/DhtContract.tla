---------------------------- MODULE DhtContract ----------------------------
(***************************************************************************)
(* The documented contract of the Dht trait and of the constructors, as     *)
(* pure predicates.  Shared by the API state machine (DhtApi), by the       *)
(* scenario generators and by the trace specifications.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Modes == {"p", "ip", "oop"}     \* process, process_with_scratch, process_outofplace_with_scratch

\* A call on a transform of length n with a buffer of b cells, an output of o cells (out of place only)
\* and s cells of scratch, adv being the scratch length advertised for that kind of call.
ValidCall(n, mode, b, o, s, adv) ==
  \/ n = 0
  \/ /\ b >= n /\ b % n = 0
     /\ mode = "oop" => o = b
     /\ mode # "p" => s >= adv

Prime(k) == k >= 2 /\ \A d \in 2..(IF k < 1024 THEN 32 ELSE IF k < 1048576 THEN 1024 ELSE 6000) : d * d > k \/ k % d # 0
PowerOfTwo(k) == \E e \in 0..30 : k = 2^e

Butterflies == {1, 2, 3, 4, 5, 6, 8, 9, 16}
NxN == {2, 3, 4, 5, 6}

\* which constructor arguments are documented as legal
CtorAccepts(ctor, arg, kids) ==
  CASE ctor = "radix4" -> PowerOfTwo(arg)
    [] ctor = "rader"  -> Prime(kids[1] + 1)
    [] ctor = "split"  -> kids[2] = 2 * kids[1]
    [] ctor = "butterfly" -> arg \in Butterflies
    [] OTHER -> TRUE

CtorLen(ctor, arg, kids) ==
  CASE ctor \in {"naive", "radix4", "butterfly", "user"} -> arg
    [] ctor = "mixed" -> kids[1] * kids[2]
    [] ctor = "nxn"   -> arg * kids[1]
    [] ctor = "rader" -> kids[1] + 1
    [] ctor = "split" -> kids[1] * 4
=============================================================================
