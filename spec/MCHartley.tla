----------------------------- MODULE MCHartley -----------------------------
(***************************************************************************)
(* The oracle checked against itself: for every length n <= N and every     *)
(* unit vector, the closed-form fingerprints used on traces equal the       *)
(* fingerprints of the transform as defined; transforming twice multiplies  *)
(* by n (C11); the transform of a batch laid out consecutively has the      *)
(* fingerprint the basis runs are compared with.  Each state is one         *)
(* (n, j, r).                                                               *)
(***************************************************************************)
EXTENDS Hartley, IOUtils, TLC
N == atoi(IOEnv.N)
\* m = 5040, p = 15121; m = 720720, p = 4324321 for the lengths that need it
Of(n) == IF 5040 % n = 0 THEN MkField(15121, 5040, 1331, n) ELSE MkField(4324321, 720720, 2515964, n)
Lengths == {n \in 1..N : 720720 % n = 0}
ASSUME FieldOK(15121, 5040, 1331, 1, <<2, 3, 5, 7>>) /\ FieldOK(4324321, 720720, 2515964, 1, <<2, 3, 5, 7, 11, 13>>)

VARIABLES n, j, r
Init == n \in Lengths /\ j = 0 /\ r \in {2, 77, 12345}
Next == j < n - 1 /\ j' = j + 1 /\ UNCHANGED <<n, r>>
Spec == Init /\ [][Next]_<<n, j, r>>

F == Of(n)
X == Dht(F, Unit(F, j))
Sparse == <<<<j, 1>>>>
Two == IF n > 1 THEN <<<<j, 5>>, <<(j + 1) % n, -7>>>> ELSE <<<<0, -2>>>>

KernelOK == Kernel(F, r, j) = Fingerprint(F, r, X, n)
VecOK    == VecFp(F, r, Two) = Fingerprint(F, r, Dht(F, Dense(F, Two)), n)
RawOK    == RawFp(F, r, Two) = Fingerprint(F, r, Dense(F, Two), n)
TwiceOK  == Dht(F, X) = [k \in 0..(n - 1) |-> IF k = j THEN n % F.p ELSE 0]
LinearOK == LET Y == Dht(F, Dense(F, Two)) IN
            n > 1 => \A k \in 0..(n - 1) : Y[k] = (Mul(5, X[k], F.p) - Mul(7, Cas(F, ((j + 1) % n) * k), F.p)) % F.p
SymmOK   == \A k \in 0..(n - 1) : X[k] = Cas(F, j * k)
\* all unit vectors one after the other (checked once per n and r)
BasisOK  == j = 0 =>
  LET B == [i \in 0..(n * n - 1) |-> Cas(F, (i \div n) * (i % n))]
      U == [i \in 0..(n * n - 1) |-> IF i \div n = i % n THEN 1 ELSE 0]
  IN  BasisFp(F, r) = Fingerprint(F, r, B, n * n) /\ RawBasisFp(F, r) = Fingerprint(F, r, U, n * n)
=============================================================================
