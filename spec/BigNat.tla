------------------------------- MODULE BigNat -------------------------------
(***************************************************************************)
(* Natural numbers beyond TLC's integers: little-endian digits, base 2^15,  *)
(* no trailing zero digits.  Used for constructor arguments that a 32-bit   *)
(* (or floating-point) shortcut in the code would confuse.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences

Base == 32768
RECURSIVE Trim(_), Big(_), AddC(_, _, _), MulD(_, _, _), BigMul(_, _), Carry(_)
Trim(a) == IF a = <<>> \/ a[Len(a)] # 0 THEN a ELSE Trim(SubSeq(a, 1, Len(a) - 1))
Big(k) == IF k = 0 THEN <<>> ELSE <<k % Base>> \o Big(k \div Base)
Carry(c) == IF c = 0 THEN <<>> ELSE <<c % Base>> \o Carry(c \div Base)
Dig(a) == IF a = <<>> THEN 0 ELSE a[1]
Rest(a) == IF a = <<>> THEN <<>> ELSE Tail(a)
AddC(a, b, c) ==
  IF a = <<>> /\ b = <<>> THEN Carry(c)
  ELSE LET s == Dig(a) + Dig(b) + c IN <<s % Base>> \o AddC(Rest(a), Rest(b), s \div Base)
BigAdd(a, b) == AddC(a, b, 0)
MulD(a, d, c) ==
  IF a = <<>> THEN Carry(c)
  ELSE LET s == a[1] * d + c IN <<s % Base>> \o MulD(Tail(a), d, s \div Base)
BigMul(a, b) == IF b = <<>> THEN <<>> ELSE Trim(BigAdd(MulD(a, b[1], 0), <<0>> \o BigMul(a, Tail(b))))
BigPow2(a) == a # <<>> /\ (\E e \in 0..14 : a[Len(a)] = 2^e) /\ \A i \in 1..(Len(a) - 1) : a[i] = 0

\* arguments the documentation rules out; f: a factorisation, if the constructor wants a prime
Refused(ctor, lens, f) ==
  CASE ctor = "radix4" -> ~BigPow2(lens[1])
    [] ctor = "split"  -> BigMul(lens[1], <<2>>) # lens[2]
    [] ctor = "rader"  -> /\ Len(f) = 2 /\ f[1] \notin {<<>>, <<1>>} /\ f[2] \notin {<<>>, <<1>>}
                          /\ BigMul(f[1], f[2]) = BigAdd(lens[1], <<1>>)
ASSUME /\ BigMul(Big(46341), Big(46340)) = Big(2147441940)
       /\ BigAdd(Big(2147450879), Big(32768)) = Big(2147483647)
       /\ BigPow2(Big(1073741824)) /\ ~BigPow2(Big(1073741825)) /\ ~BigPow2(<<>>)
       /\ BigMul(<<1, 1>>, <<1, 1>>) = <<1, 2, 1>>
=============================================================================
