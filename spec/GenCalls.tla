----------------------------- MODULE GenCalls ------------------------------
(***************************************************************************)
(* Enumerates call shapes, call histories, thread schedules, constructor    *)
(* arguments and scratch demands (IOEnv.WHAT says which) and writes them,   *)
(* one JSON value per line, to IOEnv.OUT.                                   *)
(***************************************************************************)
EXTENDS DhtContract, TLC, Json, IOUtils, SequencesExt

\* ---- call shapes, relative to the transform's length n and the advertised scratch adv
\* <<k, c>> stands for k*n + c
BufLens == {<<0, 0>>, <<0, 1>>, <<1, -1>>, <<1, 0>>, <<1, 1>>, <<2, -1>>, <<2, 0>>, <<2, 1>>, <<3, 0>>, <<5, 0>>}
OutRel  == {<<0, 0>>, <<0, -1>>, <<0, 1>>, <<1, 0>>, <<-1, 0>>, <<2, 0>>, <<-9, 0>>}     \* added to the buffer length
ScrRel  == {"+0", "-1", "-2", "+1", "+7", "x2", "0"}
Shapes ==
  SetToSeq( {[m |-> "p", b |-> b, o |-> <<0, 0>>, s |-> "+0"] : b \in BufLens}
      \cup {[m |-> "ip", b |-> b, o |-> <<0, 0>>, s |-> s] : b \in BufLens, s \in ScrRel}
      \cup {[m |-> "oop", b |-> b, o |-> o, s |-> s] : b \in BufLens, o \in OutRel, s \in ScrRel} )

\* ---- histories: sequences of calls on instances A, B (sharing an inner transform C)
\* kinds of calls: one/two/three segments in place, out of place, convenience; and documented misuses
Who   == {"A", "B", "C"}
Kinds == {"ip1", "ip2", "oop1", "oop3", "p1", "badbuf", "badscr", "badout"}
Ops   == {[w |-> w, k |-> k] : w \in Who, k \in Kinds}
L == atoi(IOEnv.LEN)
Histories == SetToSeq([1..L -> Ops])

\* ---- schedules: all interleavings of T threads with S segments each
T == atoi(IOEnv.LEN)
S == atoi(IOEnv.SEG)
Count(f, t) == Cardinality({i \in DOMAIN f : f[i] = t})
Schedules == SetToSeq({f \in [1..(T * S) -> 0..(T - 1)] : \A t \in 0..(T - 1) : Count(f, t) = S})

\* ---- scratch demands of user-supplied inner transforms, relative to their length: <<k, c>> = k*len + c
\* (around every multiple up to the longest outer transform, and far beyond)
Demands == {<<k, c>> : k \in 0..6, c \in {-1, 0, 1}} \cup {<<2, 3>>, <<7, 2>>, <<20, 5>>, <<0, 100>>}
Scratches == SetToSeq({[ip |-> a, oop |-> b] : a \in Demands, b \in Demands})

Out == CASE IOEnv.WHAT = "shapes" -> Shapes
         [] IOEnv.WHAT = "hist" -> Histories
         [] IOEnv.WHAT = "sched" -> Schedules
         [] IOEnv.WHAT = "scratch" -> Scratches

VARIABLE done
Init == done = FALSE
Next == ~done /\ done' = ndJsonSerialize(IOEnv.OUT, Out)
Spec == Init /\ [][Next]_done
=============================================================================
