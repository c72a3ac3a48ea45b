------------------------------ MODULE TraceDht ------------------------------
(***************************************************************************)
(* Trace specification: is a recorded execution of the real library a       *)
(* behaviour of the specified one?  One recorded event per step.  The       *)
(* property that is being decided (IOEnv.PROP) selects which clauses of the *)
(* contract an event has to meet:                                           *)
(*   Value     results equal the discrete Hartley transform of the input    *)
(*   Function  results are SOME function of (transform, segment data): the  *)
(*             first observation fixes it (memo), later ones must agree     *)
(*   Panics    a call panics iff it is a documented misuse                  *)
(*   Frame     no guard cell around the slices changed                      *)
(*   Inner     user-supplied inner transforms were called within contract   *)
(*   Ctor      constructors accept exactly the documented arguments         *)
(*   Accuracy  floating-point error bound                                   *)
(*   Double    transforming twice multiplies by the length                  *)
(*   Inert     zero-length transforms do nothing                            *)
(*   Heap      calls with the caller's scratch allocate nothing             *)
(*   Cost      arithmetic operations within the bounds of module Cost       *)
(*   Cut       a panic of the user's own code reaches the caller, leaks     *)
(*             nothing, and leaves everything as usable as before           *)
(***************************************************************************)
EXTENDS DhtApi, Cost, Fixed, BigNat, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop  == IOEnv.PROP

VARIABLES l,      \* next line
          F,      \* field and length, or floating-point context
          rs,     \* fingerprint points
          bas,    \* fingerprints of the transformed basis (or <<>>)
          vecs,   \* vector id -> data and expected results
          memo,   \* <<type, transform, vector id>> -> observed result
          thr,    \* thread -> "idle" or the call it is executing
          mem     \* contents of the memory that op events work on
vars == <<l, F, rs, bas, vecs, memo, thr, mem>>

Value    == Prop \in {"C01", "C02", "C03", "C05", "C16", "C17"}
Function == Prop \in {"C03", "C04", "C08", "C09", "C12", "C16", "C17"}
NoPanic  == Prop \notin {"C04", "C08", "C09", "C12"}     \* (these judge panics relatively, too)

ev == Trace[l]
Is(k) == l <= Len(Trace) /\ ev.e = k /\ l' = l + 1

Reject(why) == Print(<<"REJECT", l, why>>, FALSE)
OkOr(cond, why) == IF cond THEN TRUE ELSE Reject(why)

Init ==
  /\ l = 1 /\ F = [n |-> 0] /\ rs = <<>> /\ bas = <<>> /\ vecs = <<>> /\ memo = <<>> /\ thr = <<>> /\ mem = <<>>

-----------------------------------------------------------------------------
(* contexts and data *)
Ctx ==
  /\ Is("ctx")
  /\ OkOr(FieldOK(ev.p, ev.m, ev.z, ev.n, ev.qs), "harness: bad field")
  /\ F' = MkField(ev.p, ev.m, ev.z, ev.n)
  /\ rs' = ev.rs
  /\ bas' = IF ev.bas = 1 THEN [q \in 1..Len(ev.rs) |-> BasisFp(F', ev.rs[q])] ELSE <<>>
  /\ vecs' = <<>> /\ memo' = <<>> /\ thr' = <<>> /\ mem' = <<>>
FCtx ==
  /\ Is("fctx")
  /\ F' = [n |-> ev.n, cas |-> ev.cas, ks |-> ev.ks]
  /\ rs' = <<>> /\ bas' = <<>> /\ vecs' = <<>> /\ memo' = <<>> /\ thr' = <<>> /\ mem' = <<>>

NeedX == Value \/ Prop = "C10"
VecEv ==
  /\ Is("vec")
  /\ vecs' = (ev.id :>
       IF "p" \in DOMAIN F
       THEN [ s |-> ev.s,
              k |-> IF Value THEN [q \in 1..Len(rs) |-> VecFp(F, rs[q], ev.s)] ELSE <<>>,
              raw |-> IF Prop = "C11" THEN [q \in 1..Len(rs) |-> Mul(F.n % F.p, RawFp(F, rs[q], ev.s), F.p)] ELSE <<>> ]
       ELSE [ s |-> ev.s, nrm |-> Norm1(ev.s),
              x |-> IF NeedX THEN FixedDht(F.n, F.cas, ev.s, F.ks) ELSE <<>> ]) @@ vecs
  /\ UNCHANGED <<F, rs, bas, memo, thr, mem>>

-----------------------------------------------------------------------------
(* results *)
\* Accuracy.  Eps(n, rad): the permitted error in machine epsilons per unit of |x|_1; transforms that contain
\* Rader's algorithm (rad = 1) convolve with large coefficients and get more.
Eps(n, rad) == IF rad = 1 THEN 16 + 2 * Log2(n) ELSE 6 + Log2(n)
\* f64: eps = 2^-52 = 1/16 unit of 2^-48; half a unit (8/16) per unit of |x|_1 is the resolution of the oracle
TolF64(n, rad, nrm) == ((8 + Eps(n, rad)) * nrm) \div 16 + 2
\* f32: eps = 2^-23 = 512 units of 2^-32
TolF32(n, rad, nrm) == 512 * Eps(n, rad) * nrm + 512
Close(ty, n, rad, nrm, tight, a, b) ==
  IF ty = "f64" /\ tight THEN Within(a, b, TolF64(n, rad, nrm)) ELSE Within16(a, b, TolF32(n, IF tight THEN rad ELSE 1, nrm))

Triple(o, k) == <<o[3 * k - 2], o[3 * k - 1], o[3 * k]>>

\* the q-th segment of the result is the transform of vector v
SegValue(q, v) ==
  IF ev.ty = "fp"
  THEN ev.rec = 1 => ev.fp[q] = vecs[v].k
  ELSE Len(ev.out[q]) = 3 * Len(F.ks) /\ \A k \in 1..Len(F.ks) : Close(ev.ty, F.n, ev.rad, vecs[v].nrm, Prop \in {"C10", "C16"}, Triple(ev.out[q], k), vecs[v].x[k])

Segments == IF ev.ty = "fp" THEN ev.fp ELSE ev.out

\* poisoned segments (vector 0) have no specified value
ValueOK ==
  IF ev.bas = 1
  THEN Len(ev.fp) = 1 /\ (ev.rec = 1 => ev.fp[1] = bas)
  ELSE /\ Len(Segments) = Len(ev.v)
       /\ ev.ty # "fp" => ev.nf = 0
       /\ \A q \in 1..Len(ev.v) : ev.v[q] # 0 => SegValue(q, ev.v[q])

\* ... and agree with every other result of the same transform, in the same style, on the same data
Style == IF ev.mode = "oop" THEN "oop" ELSE "ip"
Key(q) == <<ev.ty, ev.t, Style, ev.v[q]>>
Known == DOMAIN memo
Outcome(q) == [panic |-> ev.res # "ok", r |-> IF ev.res = "ok" THEN Segments[q] ELSE <<>>]
SameResult(v, a, b) ==
  IF ev.ty = "fp" THEN a = b
  ELSE Len(a) = Len(b) /\ \A k \in 1..(Len(a) \div 3) : Close(ev.ty, ev.n, ev.rad, vecs[v].nrm, TRUE, Triple(a, k), Triple(b, k))
SegSame(q) ==
  \/ ev.v[q] = 0
  \/ Key(q) \notin Known
  \/ LET a == Outcome(q)
         b == memo[Key(q)]
     IN  a.panic = b.panic /\ (~a.panic => SameResult(ev.v[q], a.r, b.r))
FunctionOK ==
  /\ ev.res = "ok" => Len(Segments) = Len(ev.v) /\ (ev.ty # "fp" => ev.nf = 0)
  /\ \A q \in 1..Len(ev.v) : SegSame(q)
  /\ \A q1, q2 \in 1..Len(ev.v) :
        (ev.res = "ok" /\ ev.v[q1] = ev.v[q2] /\ ev.v[q1] # 0 /\ q1 # q2) => SameResult(ev.v[q1], Segments[q1], Segments[q2])

Valid == ValidCall(ev.n, ev.mode, ev.b, ev.o, ev.s, ev.adv)

\* what a transform says about itself never changes
AdvKey == <<"adv", ev.ty, ev.t, Style>>
AdvOK == AdvKey \in Known => memo[AdvKey] = <<ev.n, ev.adv>>
WithAdv(m) == IF Prop \in {"C08", "C17"} /\ AdvKey \notin Known THEN (AdvKey :> <<ev.n, ev.adv>>) @@ m ELSE m

Remember == WithAdv(
  IF Function /\ ev.n > 0 /\ ev.bas = 0 /\ Valid
  THEN LET new == {q \in 1..Len(ev.v) : ev.v[q] # 0 /\ Key(q) \notin Known}
       IN  IF new = {} THEN memo
           ELSE [k \in {Key(q) : q \in new} |-> LET q == CHOOSE q \in new : Key(q) = k IN Outcome(q)] @@ memo
  ELSE memo)

\* a call that the library made on a user-supplied transform
InnerOK(c) == ValidCall(c.n, c.m, c.b, c.o, c.s, c.a)

\* heap: allocations, bytes, bytes not given back
HeapOK == IF ev.mode = "p" THEN ev.heap[2] <= ev.adv * ev.es /\ ev.heap[3] = 0 ELSE ev.heap = <<0, 0, 0>>

CostOK == LET k == ev.b \div ev.n
          IN  /\ ev.ty = "fp" => ev.ops <= k * Ops(ev.tree)
              /\ ev.useg = k * Uses(ev.tree)

CallOK ==
  /\ (Prop = "C14" /\ Valid /\ ev.res = "ok") => OkOr(HeapOK, "heap memory was allocated")
  /\ (Prop = "C15" /\ Valid /\ ev.res = "ok" /\ ev.n > 0) => OkOr(CostOK, "more work than the algorithm needs")
  /\ Prop \notin {"C07", "C08", "C09", "C14", "C15", "C16", "C17"} => OkOr(ev.n = F.n, "length of the transform differs from the documented one")
  /\ Prop = "C06" => OkOr((ev.res = "ok") <=> Valid,
                         IF Valid THEN "valid call panicked" ELSE "documented misuse did not panic")
  /\ (Valid /\ NoPanic) => OkOr(ev.res = "ok", "valid call panicked")
  /\ (ev.n > 0 /\ Valid /\ ev.res = "ok" /\ (ev.n = F.n \/ Prop \notin {"C16", "C17"})) =>
        /\ Value => OkOr(ValueOK, "result is not the transform of the input")
        /\ Prop = "C10" => OkOr(ValueOK, "floating-point error exceeds the bound")
  /\ (Function /\ ev.n > 0 /\ Valid /\ ev.bas = 0) => OkOr(FunctionOK, "result differs from an earlier result on the same data")
  /\ Prop \in {"C08", "C17"} => OkOr(AdvOK, "advertised lengths changed")
  /\ Prop \in {"C12", "C17"} => OkOr(ev.g = 1, "memory outside the slices was modified")
  /\ Prop = "C05" => OkOr(\A q \in 1..Len(ev.inner) : InnerOK(ev.inner[q]), "an inner transform was called outside its contract")
  /\ (Prop = "C13" /\ ev.n = 0) => OkOr(ev.res = "ok" /\ ev.unch = 1 /\ ev.g = 1, "zero-length transform is not inert")

Call == Is("call") /\ CallOK /\ memo' = Remember /\ UNCHANGED <<F, rs, bas, vecs, thr, mem>>

-----------------------------------------------------------------------------
(* constructors *)
NewOK ==
  /\ (Prop \in {"C07", "C13", "C16", "C17"} /\ ev.ko = 1 /\ ev.ctor # "ref") =>
        IF CtorAccepts(ev.ctor, ev.arg, ev.kids)
        THEN /\ OkOr(ev.ok = 1, "constructor rejected documented arguments")
             /\ OkOr(ev.len = CtorLen(ev.ctor, ev.arg, ev.kids), "wrong length reported")
        ELSE OkOr(ev.ok = 0, "constructor accepted undocumented arguments")
\* arguments beyond 32 bits, given by their digits
NewBigOK ==
  /\ OkOr(Refused(ev.ctor, ev.lens, ev.fac), "harness: not a refusable constructor call")
  /\ OkOr(ev.ok = 0, "constructor accepted undocumented arguments")
NewBig == Is("newbig") /\ NewBigOK /\ UNCHANGED <<F, rs, bas, vecs, memo, thr, mem>>
New == Is("new") /\ NewOK /\ UNCHANGED <<F, rs, bas, vecs, memo, thr, mem>>

-----------------------------------------------------------------------------
(* calls and constructions in which the user's code (the arithmetic of the elements, or a user-supplied transform)
   panicked at a chosen operation: fired = 1 if it got that far *)
CutOK ==
  /\ OkOr(ev.fired = 1 => ev.res # "ok", "a panic of the user's code was swallowed")
  /\ OkOr((ev.fired = 0 /\ Valid) => ev.res = "ok", "valid call panicked")
  /\ OkOr(ev.g = 1, "memory outside the slices was modified")
  /\ OkOr(ev.heap[3] = 0, "an aborted call did not leave the heap as it found it")
  /\ OkOr(AdvOK, "advertised lengths changed")
Cut == Is("cut") /\ CutOK /\ UNCHANGED <<F, rs, bas, vecs, memo, thr, mem>>
CutNew == Is("cutnew") /\ OkOr(ev.fired = 1 => ev.ok = 0, "a panic of the user's code was swallowed") /\ UNCHANGED <<F, rs, bas, vecs, memo, thr, mem>>

-----------------------------------------------------------------------------
(* transforming twice *)
\* raw input j, times n, as limbs
ChainF(q, v) ==
  LET s == vecs[v].s
      val == [ j \in 1..F.n |-> LET A(i) == IF s[i][1] = j - 1 THEN s[i][2] ELSE 0 IN SumInt(A, 1, Len(s)) ]
  IN  \A i \in 1..Len(F.ks) : LET j == F.ks[i] + 1 IN Within16(Triple(ev.out[q], i), <<F.n * val[j] * 65536, 0, 0>>,
                                 4 * F.n * TolF32(F.n, 1, vecs[v].nrm))
ChainOK ==
  /\ OkOr(ev.res = "ok" /\ ev.res1 = "ok", "valid call panicked")
  /\ OkOr(ev.n = F.n /\ ev.n1 = F.n, "length of the transform differs from the documented one")
  /\ OkOr(/\ Len(Segments) = Len(ev.v)
          /\ ev.ty # "fp" => ev.nf = 0
          /\ \A q \in 1..Len(ev.v) :
               IF ev.ty = "fp" THEN (ev.rec = 1 /\ ev.rec1 = 1) => ev.fp[q] = vecs[ev.v[q]].raw
               ELSE ChainF(q, ev.v[q]),
          "transforming twice does not multiply by the length")
Chain == Is("chain") /\ ChainOK /\ UNCHANGED <<F, rs, bas, vecs, memo, thr, mem>>

-----------------------------------------------------------------------------
(* concurrent calls *)
Running(th) == th \in DOMAIN thr /\ thr[th] # "idle"
Beg == /\ Is("beg") /\ OkOr(~Running(ev.th), "harness: thread busy")
       /\ thr' = (ev.th :> ev.t) @@ thr
       /\ UNCHANGED <<F, rs, bas, vecs, memo, mem>>
End == /\ Is("end") /\ OkOr(Running(ev.th) /\ thr[ev.th] = ev.t, "harness: thread idle")
       /\ CallOK
       /\ thr' = (ev.th :> "idle") @@ thr
       /\ memo' = Remember /\ UNCHANGED <<F, rs, bas, vecs, mem>>
Join == /\ Is("join") /\ OkOr(\A th \in DOMAIN thr : thr[th] = "idle", "a call never returned")
        /\ UNCHANGED <<F, rs, bas, vecs, memo, thr, mem>>

-----------------------------------------------------------------------------
(* calls on regions of one memory that persists from call to call *)
AsMem(x) == [a \in 0..(Len(x) - 1) |-> x[a + 1]]
ArenaEv == /\ Is("arena") /\ mem' = AsMem(ev.mem) /\ UNCHANGED <<F, rs, bas, vecs, memo, thr>>

OpValid == ValidCall(ev.n, ev.mode, ev.b.l, ev.o.l, ev.s.l, ev.adv)
OpSegs == IF OpValid /\ ev.n > 0 /\ ev.res = "ok" THEN 0..((ev.b.l \div ev.n) - 1) ELSE {}
\* C01 speaks of in-place calls, C02 of out-of-place ones
InScope == /\ Prop = "C01" => ev.mode # "oop"
           /\ Prop = "C02" => ev.mode = "oop"
OpKey(q) == <<ev.ty, ev.t, ev.mode, "op", Segment(mem, ev.b.o + q * ev.n, ev.n)>>
OpRes(q, post) == Segment(post, ResultRegion(ev.mode, ev.b, ev.o).o + q * ev.n, ev.n)
OpValue(post) ==
  LET FN == MkField(F.p, F.m, F.z, ev.n)
      Tr(x) == Dht(FN, x)
  IN  ResultOK(Tr, ev.n, ev.mode, ev.b, ev.o, mem, post)
OpFunction(post) ==
  /\ \A q \in OpSegs : OpKey(q) \in Known => memo[OpKey(q)] = OpRes(q, post)
  /\ \A q1, q2 \in OpSegs : OpKey(q1) = OpKey(q2) => OpRes(q1, post) = OpRes(q2, post)
Op ==
  /\ Is("op")
  /\ mem' = AsMem(ev.mem)
  /\ (Prop \in {"C06", "C08"}) => OkOr(ev.n > 0 => ((ev.res = "ok") <=> OpValid), IF OpValid THEN "valid call panicked" ELSE "documented misuse did not panic")
  /\ ev.fired = 1 => OkOr(ev.res # "ok", "a panic of the user's code was swallowed")
  /\ (OpValid /\ NoPanic /\ InScope /\ ev.fired = 0) => OkOr(ev.res = "ok", "valid call panicked")
  /\ (Prop = "C13" /\ ev.n = 0) => OkOr(ev.res = "ok" /\ mem' = mem, "zero-length transform is not inert")
  /\ Prop \in {"C12", "C08", "C17"} => OkOr(IF ev.n = 0 THEN mem' = mem ELSE FrameOK(ev.mode, ev.b, ev.o, ev.s, mem, mem'), "memory outside the slices was modified")
  /\ (Value /\ InScope /\ ev.ty = "fp" /\ ev.rec = 1 /\ ev.res = "ok" /\ OpValid /\ ev.n > 0) => OkOr(OpValue(mem'), "result is not the transform of the input")
  /\ Prop = "C08" => OkOr(AdvOK, "advertised lengths changed")
  /\ Function => OkOr(OpFunction(mem'), "result differs from an earlier result on the same data")
  /\ memo' = WithAdv(IF Function /\ OpSegs # {}
                     THEN [k \in {OpKey(q) : q \in OpSegs} |-> OpRes(CHOOSE q \in OpSegs : OpKey(q) = k, mem')] @@ memo
                     ELSE memo)
  /\ UNCHANGED <<F, rs, bas, vecs, thr>>

Next == Cut \/ CutNew \/ ArenaEv \/ Op \/ Ctx \/ FCtx \/ VecEv \/ Call \/ New \/ NewBig \/ Chain \/ Beg \/ End \/ Join
Spec == Init /\ [][Next]_vars

Accepted == LET d == TLCGet("stats").diameter - 1
            IN  IF d = Len(Trace) THEN TRUE
                ELSE Print(<<"STUCK", d + 1, "of", Len(Trace)>>, FALSE)
=============================================================================
