-------------------------------- MODULE Cost --------------------------------
(***************************************************************************)
(* Transforms as trees (records; see Algorithms), their lengths, and what a *)
(* call on them may cost.                                                   *)
(*                                                                          *)
(* Ops(t) bounds the additions, subtractions, multiplications and divisions *)
(* of elements per segment, apart from those of user-supplied transforms;   *)
(* Uses(t) is how many segments user-supplied inner transforms are asked to *)
(* transform per segment of t.                                              *)
(***************************************************************************)
EXTENDS DhtContract

RECURSIVE TLen(_)
TLen(t) ==
  CASE t.k \in {"n", "b", "r", "u", "z"} -> t.n
    [] t.k = "x" -> t.w * TLen(t.a)
    [] t.k = "m" -> TLen(t.a) * TLen(t.b)
    [] t.k = "p" -> TLen(t.a) + 1
    [] t.k = "s" -> 4 * TLen(t.a)

RECURSIVE Lg(_)
Lg(n) == IF n <= 1 THEN 0 ELSE 1 + Lg((n + 1) \div 2)      \* rounded up

\* the inner transforms of t, and on how many segments each is used
Parts(t) ==
  CASE t.k = "x" -> << <<t.w, t.a>> >>
    [] t.k = "m" -> << <<TLen(t.b), t.a>>, <<TLen(t.a), t.b>> >>
    [] t.k = "p" -> << <<2, t.a>> >>
    [] t.k = "s" -> << <<2, t.a>>, <<1, t.b>> >>
    [] OTHER -> <<>>

RECURSIVE Ops(_), Uses(_)
Ops(t) ==
  LET n == TLen(t)
      q == Parts(t)
  IN CASE t.k = "n" -> 3 * n * n
       [] t.k = "b" -> 12 * n
       [] t.k = "r" -> 12 * n + 4 * n * Lg(n)
       [] t.k \in {"u", "z"} -> 0
       [] OTHER -> 24 * n + q[1][1] * Ops(q[1][2]) + (IF Len(q) = 2 THEN q[2][1] * Ops(q[2][2]) ELSE 0)
Uses(t) ==
  LET q == Parts(t)
  IN  IF t.k = "u" THEN 1
      ELSE (IF Len(q) >= 1 THEN q[1][1] * Uses(q[1][2]) ELSE 0) + (IF Len(q) = 2 THEN q[2][1] * Uses(q[2][2]) ELSE 0)
=============================================================================
