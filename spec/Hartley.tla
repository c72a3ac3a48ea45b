------------------------------ MODULE Hartley ------------------------------
(***************************************************************************)
(* The discrete Hartley transform, X[k] = sum_j x[j] cas(2 pi j k / n) with *)
(* cas t = cos t + sin t, over a field that contains the roots of unity     *)
(* needed.  A context F describes the field and the length:                 *)
(*   p, m, z : GF(p), z a primitive m-th root of unity, 8 | m, n | m        *)
(*   n       : transform length                                             *)
(*   w, wi   : z^(m/n) and its inverse;  A, B : (1-i)/2 and (1+i)/2         *)
(* cas(2 pi k/n) = A w^k + B w^-k.  The map cos(2 pi k/m) |-> (z^k+z^-k)/2  *)
(* is a ring homomorphism, so an identity between expressions in these      *)
(* constants that fails in GF(p) fails over the reals.                      *)
(*                                                                          *)
(* Results are compared through fingerprints Fp_r(X) = sum_k r^k X[k]; the  *)
(* fingerprint of a transform has a closed form in geometric sums.          *)
(***************************************************************************)
EXTENDS Field

MkField(p, m, z, n) ==
  LET i  == Pow(z, m \div 4, p)
      i2 == Inv(2, p)
      w  == Pow(z, m \div (IF n = 0 THEN 1 ELSE n), p)
  IN  [ p |-> p, m |-> m, z |-> z, n |-> n, w |-> w, wi |-> Inv(w, p),
        A |-> Mul((1 - i) % p, i2, p), B |-> Mul((1 + i) % p, i2, p) ]

FieldOK(p, m, z, n, qs) ==
  /\ IsPrime(p) /\ p > 2 /\ p < 16777216
  /\ m % 8 = 0 /\ (n > 0 => m % n = 0) /\ (p - 1) % m = 0
  /\ PrimitiveRoot(z, m, p, qs)

Cas(F, k) == LET e == Pow(F.w, k % F.n, F.p)
                 f == Pow(F.wi, k % F.n, F.p)
             IN  (Mul(F.A, e, F.p) + Mul(F.B, f, F.p)) % F.p

\* vectors are functions 0..n-1 -> 0..p-1
Dht(F, x) == [ k \in 0..(F.n - 1) |->
                 LET T(j) == IF x[j] = 0 THEN 0 ELSE Mul(x[j], Cas(F, (j * k) % F.n), F.p)
                 IN  SumOp(T, 0, F.n - 1, F.p) ]

\* sum_i r^i y[i] over the first len cells of y, a function on 0..len-1
Fingerprint(F, r, y, len) ==
  LET T(i) == IF y[i] = 0 THEN 0 ELSE Mul(Pow(r, i, F.p), y[i], F.p)
  IN  SumOp(T, 0, len - 1, F.p)

\* fingerprint of the transform of the unit vector e_j
Kernel(F, r, j) ==
  (Mul(F.A, Geo(Mul(r, Pow(F.w,  j, F.p), F.p), F.n, F.p)[1], F.p)
 + Mul(F.B, Geo(Mul(r, Pow(F.wi, j, F.p), F.p), F.n, F.p)[1], F.p)) % F.p

\* s: sparse vector, a sequence of pairs <<index, integer value>>
VecFp(F, r, s) ==
  LET T(q) == Mul(s[q][2] % F.p, Kernel(F, r, s[q][1]), F.p)
  IN  SumOp(T, 1, Len(s), F.p)

\* fingerprint of the untransformed vector
RawFp(F, r, s) ==
  LET T(q) == Mul(s[q][2] % F.p, Pow(r, s[q][1], F.p), F.p)
  IN  SumOp(T, 1, Len(s), F.p)

\* fingerprint of the transforms of e_0, e_1, ..., e_(n-1), laid out one after the other
BasisFp(F, r) ==
  LET rn == Pow(r, F.n, F.p)
      T(j) == Mul(Pow(rn, j, F.p), Kernel(F, r, j), F.p)
  IN  SumOp(T, 0, F.n - 1, F.p)

\* the same for the untransformed basis
RawBasisFp(F, r) == LET T(j) == Pow(r, j * F.n + j, F.p) IN SumOp(T, 0, F.n - 1, F.p)

Dense(F, s) == [ j \in 0..(F.n - 1) |->
                   LET T(q) == IF s[q][1] = j THEN s[q][2] % F.p ELSE 0
                   IN  SumOp(T, 1, Len(s), F.p) ]
Unit(F, j) == [ k \in 0..(F.n - 1) |-> IF k = j THEN 1 ELSE 0 ]
=============================================================================
