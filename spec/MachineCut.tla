----------------------------- MODULE MachineCut -----------------------------
(***************************************************************************)
(* The machine, in which the user's code (element arithmetic or a           *)
(* user-supplied transform) may panic at any step of a call.  The call ends *)
(* there; process gives its scratch back; the caller refills the input and  *)
(* calls again, on memory that holds whatever the aborted call left in the  *)
(* scratch and output regions.  Everything the machine guarantees has to    *)
(* hold for the second call, and for the calls of the other threads (C17).  *)
(***************************************************************************)
EXTENDS Machine
VARIABLES cuts,     \* calls of every thread that were cut short
          leaked,   \* heap cells never given back
          poisoned  \* a lock that an aborted call held
cvars == <<cfg, prog, pc, mem, cuts, leaked, poisoned>>

CInit == Init /\ cuts = [th \in 1..Threads |-> 0] /\ leaked = {} /\ poisoned = FALSE
Held(th) == CellsOf(th, "alloc", pc[th] - 1) \ CellsOf(th, "free", pc[th] - 1)
CutAt(th) ==
  /\ prog # <<>> /\ pc[th] <= Len(prog[th]) /\ cuts[th] = 0
  /\ cuts' = [cuts EXCEPT ![th] = 1]
  /\ leaked' = leaked \cup (IF BugName = "cut-leak" THEN Held(th) ELSE {})
  /\ poisoned' = (BugName = "cut-poison")
  \* the instance remembers how far it got
  /\ pc' = IF BugName = "cut-resume" THEN pc ELSE [pc EXCEPT ![th] = 1]
  /\ LET I == cfg.l[th].in
         h == Held(th)
     IN  mem' = [a \in DOMAIN mem |->
                   IF InReg(a, I) THEN [v \in 1..I.n |-> IF a - I.o = v - 1 THEN 1 ELSE 0]
                   ELSE IF a \in h THEN <<>> ELSE mem[a]]
  /\ UNCHANGED <<cfg, prog>>
CNext == \/ Start /\ UNCHANGED <<cuts, leaked, poisoned>>
         \/ \E th \in 1..Threads : ~poisoned /\ Step(th) /\ UNCHANGED <<cuts, leaked, poisoned>>
         \/ \E th \in 1..Threads : CutAt(th)
         \/ Done /\ UNCHANGED cvars
CSpec == CInit /\ [][CNext]_cvars /\ WF_cvars(CNext)
CFinishes == <>Done
NoLeak == leaked = {}
=============================================================================
