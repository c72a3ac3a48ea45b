------------------------------- MODULE DhtApi ------------------------------
(***************************************************************************)
(* The public interface as a transition relation over one memory.           *)
(*                                                                          *)
(* mem is a function from addresses 0..C-1 to values; a call is handed the  *)
(* regions b (buffer or input), o (output, out of place only) and s         *)
(* (scratch), records [o |-> first address, l |-> length], pairwise         *)
(* disjoint.  ApiStep says which memory contents and which outcome a call   *)
(* on a transform of length n may lead to; nothing else influences it: no   *)
(* earlier call, no other transform, no other thread.                       *)
(* Used by MCDhtApi (exploration, scenario generation) and by TraceDht      *)
(* (validation of recorded executions).                                     *)
(***************************************************************************)
EXTENDS Hartley, DhtContract

InRegion(a, r) == a >= r.o /\ a < r.o + r.l
\* the cells a call may write
Owns(mode, b, o, s, a) == InRegion(a, b) \/ (mode = "oop" /\ InRegion(a, o)) \/ (mode # "p" /\ InRegion(a, s))
ResultRegion(mode, b, o) == IF mode = "oop" THEN o ELSE b
Segment(mem, at, n) == [k \in 0..(n - 1) |-> mem[at + k]]

FrameOK(mode, b, o, s, pre, post) ==
  /\ DOMAIN post = DOMAIN pre
  /\ \A a \in DOMAIN pre : Owns(mode, b, o, s, a) \/ post[a] = pre[a]

\* T: the transform, an operator on segments
ResultOK(T(_), n, mode, b, o, pre, post) ==
  LET r == ResultRegion(mode, b, o)
  IN  \A q \in 0..((b.l \div n) - 1) : Segment(post, r.o + q * n, n) = T(Segment(pre, b.o + q * n, n))

ApiStep(T(_), n, adv, mode, b, o, s, pre, post, res) ==
  LET valid == ValidCall(n, mode, b.l, o.l, s.l, adv)
  IN  /\ res = (IF valid THEN "ok" ELSE "panic")
      /\ IF n = 0 THEN post = pre
         ELSE FrameOK(mode, b, o, s, pre, post) /\ (valid => ResultOK(T, n, mode, b, o, pre, post))
=============================================================================
