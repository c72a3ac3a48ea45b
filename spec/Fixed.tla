------------------------------- MODULE Fixed -------------------------------
(***************************************************************************)
(* Fixed-point numbers with resolution 2^-48 as three limbs <<h, m, l>> of  *)
(* 16 bits (h signed): h*2^32 + m*2^16 + l units.  Used to state the        *)
(* accuracy of floating-point results within TLC's 32-bit integers.         *)
(***************************************************************************)
EXTENDS Integers, Sequences

\* carries; m, l end up in 0..65535
Norm(h, m, l) ==
  LET m1 == m + (l \div 65536)
  IN  << h + (m1 \div 65536), m1 % 65536, l % 65536 >>

AbsDiff(a, b) ==
  LET d == Norm(a[1] - b[1], a[2] - b[2], a[3] - b[3])
  IN  IF d[1] >= 0 THEN d ELSE Norm(b[1] - a[1], b[2] - a[2], b[3] - a[3])

\* |a - b| <= t units of 2^-48
Within(a, b, t) ==
  LET d == AbsDiff(a, b)
  IN  d[1] = 0 /\ d[2] < 32768 /\ d[2] * 65536 + d[3] <= t
\* |a - b| <= t units of 2^-32
Within16(a, b, t) ==
  LET d == AbsDiff(a, b)
  IN  d[1] < 16384 /\ d[1] * 65536 + d[2] <= t

RECURSIVE SumInt(_, _, _)
SumInt(f(_), lo, hi) ==
  IF lo > hi THEN 0
  ELSE IF lo = hi THEN f(lo)
  ELSE LET mid == (lo + hi) \div 2 IN SumInt(f, lo, mid) + SumInt(f, mid + 1, hi)

\* a*b % n where a, b < n < 2^21 (TLC's integers have 32 bits)
MulMod(a, b, n) ==
  IF n < 46341 THEN (a * b) % n
  ELSE ((((((a * (b \div 16384)) % n) * 128) + a * ((b \div 128) % 128)) % n) * 128 + a * (b % 128)) % n

\* exact transform (up to half a unit per term) of the sparse integer vector s; cas: table of n limb triples,
\* cas[k+1] = cas(2 pi k/n).  |values| must sum to at most 2^14.
\* ks: the (0-based) output positions wanted.
FixedDht(n, cas, s, ks) ==
  [ i \in 1..Len(ks) |->
      LET I(q) == MulMod(s[q][1], ks[i], n) + 1
          H(q) == s[q][2] * cas[I(q)][1]
          M(q) == s[q][2] * cas[I(q)][2]
          L(q) == s[q][2] * cas[I(q)][3]
      IN  Norm(SumInt(H, 1, Len(s)), SumInt(M, 1, Len(s)), SumInt(L, 1, Len(s))) ]

AbsInt(a) == IF a < 0 THEN 0 - a ELSE a
Norm1(s) == LET A(q) == AbsInt(s[q][2]) IN SumInt(A, 1, Len(s))

RECURSIVE Log2(_)
Log2(n) == IF n <= 1 THEN 0 ELSE 1 + Log2((n + 1) \div 2)
=============================================================================
