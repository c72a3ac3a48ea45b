------------------------------ MODULE Scratch ------------------------------
(***************************************************************************)
(* Scratch accounting of every algorithm, for inner transforms of any       *)
(* length and any advertised scratch (unbounded integers; checked with      *)
(* Apalache).  For each kind of call: what is advertised, what the inner    *)
(* calls are handed, and that this suffices (property C05).                 *)
(***************************************************************************)
EXTENDS Integers

VARIABLES
  \* @type: Int;
  a,        \* length of the first inner transform (width, quarter, Rader's inner)
  \* @type: Int;
  b,        \* length of the second one (height, half)
  \* @type: Int;
  n,        \* length of the outer transform; for mixed radix any number (a*b is not linear)
  \* @type: Int;
  aip,      \* scratch advertised by the inner transforms
  \* @type: Int;
  aoop,
  \* @type: Int;
  bip,
  \* @type: Int;
  boop,
  \* @type: Int;
  w,        \* width of the k x n algorithms
  \* @type: Int;
  surplus,  \* scratch beyond the advertised amount (cut off before use)
  \* @type: Str;
  kind

Max2(x, y) == IF x > y THEN x ELSE y
Above(x, lim) == IF x > lim THEN x ELSE 0

Init ==
  /\ a \in Int /\ a >= 1 /\ b \in Int /\ b >= 1
  /\ aip \in Int /\ aip >= 0 /\ aoop \in Int /\ aoop >= 0 /\ bip \in Int /\ bip >= 0 /\ boop \in Int /\ boop >= 0
  /\ surplus \in Int /\ surplus >= 0
  /\ w \in {2, 3, 4, 5, 6}
  /\ kind \in {"x", "m", "p", "s"}
  /\ n \in Int /\ n >= 1
  /\ kind = "x" => (w = 2 => n = 2 * a) /\ (w = 3 => n = 3 * a) /\ (w = 4 => n = 4 * a) /\ (w = 5 => n = 5 * a) /\ (w = 6 => n = 6 * a)
  /\ kind = "p" => n = a + 1
  /\ kind = "s" => n = 4 * a /\ b = 2 * a
  /\ kind = "m" => n >= a /\ n >= b
Next == UNCHANGED <<a, b, n, aip, aoop, bip, boop, w, surplus, kind>>

\* advertised
Ip ==  IF kind = "x" THEN n + aoop
       ELSE IF kind = "m" THEN n + Max2(Above(bip, n), aoop)
       ELSE IF kind = "p" THEN n - 1 + Above(aip, n - 1)
       ELSE Max2(bip, 2 * a + aoop)
Oop == IF kind = "x" THEN Above(aip, n)
       ELSE IF kind = "m" THEN Above(Max2(aip, bip), n)
       ELSE IF kind = "p" THEN Above(aip, n - 1)
       ELSE Above(Max2(aip, bip), n)

\* handed to the inner calls, and sufficient: in place ...
Pick(s, lim, other) == IF s > lim THEN s ELSE other
IpOK == LET s == Ip IN       \* the caller's scratch, cut to the advertised length
  /\ kind = "x" => s - n >= aoop
  /\ kind = "m" => s >= n /\ Pick(s - n, n, n) >= bip /\ s - n >= aoop
  /\ kind = "p" => s >= n - 1 /\ Pick(s - (n - 1), 0, n - 1) >= aip
  /\ kind = "s" => s >= bip /\ s >= 2 * a /\ s - 2 * a >= aoop
\* ... and out of place
OopOK == LET s == Oop IN
  /\ kind = "x" => Pick(s, n, n) >= aip
  /\ kind = "m" => Pick(s, n, n) >= bip /\ Pick(s, n, n) >= aip
  /\ kind = "p" => Pick(s, 0, n - 1) >= aip
  /\ kind = "s" => Pick(s, n, n) >= bip /\ Pick(s, n, n) >= aip
Suffices == IpOK /\ OopOK

\* the accounting before commit f87176e/86da72e (inner scratch taken from what happens to be there): refuted
OldIp == IF kind = "x" THEN n ELSE Ip
OldSuffices == kind = "x" => OldIp - n >= aoop
=============================================================================
