------------------------------- MODULE Field -------------------------------
(***************************************************************************)
(* Arithmetic of the prime field GF(p), p < 2^24, inside TLC's 32-bit      *)
(* integers.  Elements are 0..p-1.                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences

Add(a, b, p) == (a + b) % p
Sub(a, b, p) == (a - b) % p          \* TLA+'s % is non-negative for p > 0
Neg(a, p)    == (0 - a) % p

\* product modulo p, by limbs where a*b would not fit 31 bits
Mul(a, b, p) ==
  IF p < 46341 THEN (a * b) % p
  ELSE IF p < 4194304 THEN
     ( (( ((a * (b \div 65536)) % p) * 256 + a * ((b \div 256) % 256)) % p) * 256 + a * (b % 256)) % p
  ELSE
     ( (( (( ((a * (b \div 262144)) % p) * 64 + a * ((b \div 4096) % 64)) % p) * 64
            + a * ((b \div 64) % 64)) % p) * 64 + a * (b % 64)) % p

RECURSIVE Pow(_, _, _)
Pow(a, e, p) ==
  IF e = 0 THEN 1
  ELSE LET h == Pow(a, e \div 2, p)
           s == Mul(h, h, p)
       IN  IF e % 2 = 1 THEN Mul(s, a, p) ELSE s

Inv(a, p) == Pow(a, p - 2, p)

\* <<1 + y + ... + y^(n-1), y^n>>
RECURSIVE Geo(_, _, _)
Geo(y, n, p) ==
  IF n = 0 THEN <<0, 1>>
  ELSE IF n % 2 = 0
       THEN LET h == Geo(y, n \div 2, p)
            IN  << Mul(h[1], (1 + h[2]) % p, p), Mul(h[2], h[2], p) >>
       ELSE LET h == Geo(y, n - 1, p)
            IN  << (1 + Mul(y, h[1], p)) % p, Mul(y, h[2], p) >>

IsPrime(p) == p >= 2 /\ \A d \in 2..4096 : d * d > p \/ p % d # 0

\* sum of f[lo..hi] modulo p, f an operator
RECURSIVE SumOp(_, _, _, _)
SumOp(f(_), lo, hi, p) ==
  IF lo > hi THEN 0
  ELSE IF lo = hi THEN f(lo)
  ELSE LET mid == (lo + hi) \div 2
       IN  (SumOp(f, lo, mid, p) + SumOp(f, mid + 1, hi, p)) % p

\* m with all factors q removed
RECURSIVE Strip(_, _)
Strip(m, q) == IF m % q = 0 THEN Strip(m \div q, q) ELSE m
RECURSIVE StripAll(_, _)
StripAll(m, qs) == IF qs = <<>> THEN m ELSE StripAll(Strip(m, Head(qs)), Tail(qs))

\* z is a primitive m-th root of unity modulo p; qs: the prime factors of m (a certificate, checked)
PrimitiveRoot(z, m, p, qs) ==
  /\ StripAll(m, qs) = 1
  /\ Pow(z, m, p) = 1
  /\ \A i \in 1..Len(qs) : IsPrime(qs[i]) /\ m % qs[i] = 0 /\ Pow(z, m \div qs[i], p) # 1
=============================================================================
