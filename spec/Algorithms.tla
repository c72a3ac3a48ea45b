---------------------------- MODULE Algorithms -----------------------------
(***************************************************************************)
(* The library's algorithms as programs over a flat memory.                 *)
(*                                                                          *)
(* A transform is a tree (record): leaves naive "n", butterfly "b",         *)
(* power-of-two "r", user-supplied "u" (any advertised scratch ip/oop);     *)
(* inner nodes "x" (width w times an inner transform a), "m" (mixed radix,  *)
(* width a, height b), "p" (Rader over a), "s" (split radix, quarter a,     *)
(* half b).                                                                 *)
(*                                                                          *)
(* Call(t, mode, in, out, scr) compiles a call on the memory regions in,    *)
(* out, scr into a sequence of operations:                                  *)
(*   call    the contract of one (outer or inner) call, to be met           *)
(*   lin     cells d := matrix m times cells s, simultaneously              *)
(*   ulin    the same, done by a user-supplied transform                    *)
(*   junk    cells d become unspecified                                     *)
(*   alloc   cells d are obtained from the heap;  free  and given back      *)
(* Every operation is linear, so the memory holds linear forms over the     *)
(* input cells: one execution stands for all inputs.  Cells whose contents  *)
(* are unspecified hold <<>>; whatever is computed from them is <<>> too.   *)
(***************************************************************************)
EXTENDS Field, Cost, FiniteSetsExt, SequencesExt
CONSTANTS P, M, Z       \* the field and a primitive M-th root of unity; 8 and all lengths divide M
CONSTANT  NMax          \* largest length
CONSTANT  Bug           \* "none", or a seeded design error (to see the checks fail)

Half == Inv(2, P)
ImU  == Pow(Z, M \div 4, P)
Root == [ n \in 1..NMax |-> Pow(Z, M \div n, P) ]
IRoot == [ n \in 1..NMax |-> Inv(Root[n], P) ]
CosT == [ n \in 1..NMax |-> [ a \in 0..(n - 1) |-> Mul((Pow(Root[n], a, P) + Pow(IRoot[n], a, P)) % P, Half, P) ] ]
SinT == [ n \in 1..NMax |-> [ a \in 0..(n - 1) |-> Mul((Pow(Root[n], a, P) - Pow(IRoot[n], a, P)) % P, Mul(Half, Inv(ImU, P), P), P) ] ]
Cs(a, n) == CosT[n][a % n]
Sn(a, n) == SinT[n][a % n]
CasT(a, n) == (Cs(a, n) + Sn(a, n)) % P

-----------------------------------------------------------------------------
(* advertised scratch *)
Max2(a, b) == IF a > b THEN a ELSE b
Above(a, lim) == IF a > lim THEN a ELSE 0

RECURSIVE Adv(_, _)
Adv(t, mode) ==
  LET n == TLen(t)
      ip == mode # "oop"
  IN CASE t.k = "b" -> 0
       [] t.k \in {"n", "r"} -> IF ip THEN n ELSE 0
       [] t.k = "u" -> IF ip THEN t.ip ELSE t.oop
       [] t.k = "x" -> IF ip THEN n + (IF Bug = "x-inner" THEN 0 ELSE Adv(t.a, "oop")) ELSE Above(Adv(t.a, "ip"), n)
       [] t.k = "m" -> IF ip THEN n + Max2(Above(Adv(t.b, "ip"), n), Adv(t.a, "oop"))
                       ELSE Above(Max2(Adv(t.a, "ip"), Adv(t.b, "ip")), n)
       [] t.k = "p" -> LET e == Above(Adv(t.a, "ip"), n - 1) IN IF ip THEN n - 1 + e ELSE e
       [] t.k = "s" -> IF ip THEN Max2(Adv(t.b, "ip"), 2 * TLen(t.a) + Adv(t.a, "oop"))
                       ELSE IF Bug = "s-quarter" THEN Above(Adv(t.b, "ip"), n) ELSE Above(Max2(Adv(t.a, "ip"), Adv(t.b, "ip")), n)

-----------------------------------------------------------------------------
(* regions and operations *)
Reg(o, n) == [o |-> o, n |-> n]
From(r, k) == [o |-> r.o + k, n |-> r.n - k]
First(r, k) == [o |-> r.o, n |-> k]
At(r, i) == r.o + i

Lin(d, s, m) == [op |-> "lin", d |-> d, s |-> s, m |-> m]
ULin(d, s, m) == [op |-> "ulin", d |-> d, s |-> s, m |-> m]     \* by a user-supplied transform
\* copy: cell q of list d := cell q of list s
Copy(d, s) == [op |-> "copy", d |-> d, s |-> s, m |-> <<>>]
Junk(r, n) == [op |-> "junk", d |-> [i \in 1..n |-> At(r, i - 1)], s |-> <<>>, m |-> <<>>]
Alloc(r) == [op |-> "alloc", d |-> [i \in 1..r.n |-> At(r, i - 1)], s |-> <<>>, m |-> <<>>]
Free(r) == [Alloc(r) EXCEPT !.op = "free"]
CallOp(t, mode, in, out, scr) ==
  [op |-> "call", d |-> <<>>, s |-> <<>>, m |-> <<TLen(t), mode, in.n, out.n, scr.n, Adv(t, mode)>>]

Cells(r) == [i \in 1..r.n |-> At(r, i - 1)]
Matrix(n) == [k \in 1..n |-> [j \in 1..n |-> CasT((k - 1) * (j - 1), n)]]
Ident(n) == [k \in 1..n |-> [j \in 1..n |-> IF j = k THEN 1 ELSE 0]]

Flat(ss) == FlattenSeq(ss)
Steps(lo, hi, f(_)) == IF hi < lo THEN <<>> ELSE [i \in 1..(hi - lo + 1) |-> f(lo + i - 1)]

\* dst[c*h + r] := src[r*w + c]: h rows of w become w rows of h
Transpose(src, dst, w, h) ==
  Copy([q \in 1..(w * h) |-> At(dst, q - 1)],
       [q \in 1..(w * h) |-> At(src, ((q - 1) % h) * w + ((q - 1) \div h))])

\* R holds w rows of h, row r the transform of every w-th cell beginning with the r-th: combine columns c and h-c
Columns(R, w, h) ==
  LET n == w * h
      Cell(r, c) == At(R, r * h + c)
      One(c) ==
        IF c = (h - c) % h
        THEN Lin([q \in 1..w |-> Cell(q - 1, c)], [r \in 1..w |-> Cell(r - 1, c)],
                 [q \in 1..w |-> [r \in 1..w |-> CasT((r - 1) * (c + h * (q - 1)), n)]])
        ELSE LET e == h - c
                 \* cells: rows 0..w-1 of column c, then of column e
                 S == [i \in 1..(2 * w) |-> IF i <= w THEN Cell(i - 1, c) ELSE Cell(i - w - 1, e)]
                 Co(k, col, i) ==   \* coefficient of S[i] in output k, whose column is col
                    LET r == IF i <= w THEN i - 1 ELSE i - w - 1
                        own == (i <= w) <=> (col = c)
                    IN  IF own THEN Cs(r * k, n) ELSE Sn(r * k, n)
             IN Lin(S, S, [i \in 1..(2 * w) |->
                             LET q == IF i <= w THEN i - 1 ELSE i - w - 1
                                 col == IF i <= w THEN c ELSE e
                             IN  [j \in 1..(2 * w) |-> Co(col + h * q, col, j)]])
  IN Steps(0, h \div 2, One)

\* mixed radix twiddles on R, w rows of h: mixes the cells mirrored in row and column
Twiddles(R, w, h) ==
  LET n == w * h
      Neg1(a, k) == (k - a) % k
      Orbits == { <<r, c>> \in (0..(w \div 2)) \X (0..(h \div 2)) : TRUE }
      One(rc) ==
        LET rows == {rc[1], Neg1(rc[1], w)}
            cols == {rc[2], Neg1(rc[2], h)}
            S == SetToSortSeq(rows \X cols, LAMBDA x, y : x[1] * h + x[2] < y[1] * h + y[2])
            \* V_r[c] = 1/2 (Z_r + Z_-r + Z~_r - Z~_-r)[c], Z_r[c] = cos Y_r[c] + sin Y_r[-c], Z~_r[c] = cos Y_r[-c] - sin Y_r[c]
            Zc(r, c, s) == (IF s = <<r, c>> THEN Cs(r * c, n) ELSE 0) + (IF s = <<r, Neg1(c, h)>> THEN Sn(r * c, n) ELSE 0)
            Yc(r, c, s) == (IF s = <<r, Neg1(c, h)>> THEN Cs(r * c, n) ELSE 0) - (IF s = <<r, c>> THEN Sn(r * c, n) ELSE 0)
            Co(d, s) == LET r == d[1]  c == d[2]  e == Neg1(d[1], w)
                        IN  Mul((Zc(r, c, s) + Zc(e, c, s) + Yc(r, c, s) - Yc(e, c, s)) % P, Half, P)
            A == [i \in 1..Len(S) |-> At(R, S[i][1] * h + S[i][2])]
        IN  Lin(A, A, [i \in 1..Len(S) |-> [j \in 1..Len(S) |-> Co(S[i], S[j])]])
      os == SetToSeq(Orbits)
  IN  [i \in 1..Len(os) |-> One(os[i])]

\* split radix: first stage on R
SplitStage(R) ==
  LET n == R.n
      q == n \div 4
      Cell(b, i) == At(R, b * q + i)
      One(i) ==
        LET e == (q - i) % q
            S == IF e = i THEN [b \in 1..4 |-> Cell(b - 1, i)]
                 ELSE [b \in 1..8 |-> IF b <= 4 THEN Cell(b - 1, i) ELSE Cell(b - 5, e)]
            \* coefficient vectors over S
            U(b, j) == [x \in 1..Len(S) |-> IF S[x] = Cell(b, j) THEN 1 ELSE 0]
            Plus(u, v) == [x \in 1..Len(S) |-> (u[x] + v[x]) % P]
            Minus(u, v) == [x \in 1..Len(S) |-> (u[x] - v[x]) % P]
            Times(k, u) == [x \in 1..Len(S) |-> Mul(k, u[x], P)]
            D0(j) == Minus(U(0, j), U(2, j))
            D1(j) == Minus(U(1, j), U(3, j))
            Rows(j, f) ==
              << Plus(U(0, j), U(2, j)), Plus(U(1, j), U(3, j)),
                 IF j = 0 THEN Plus(D0(0), D1(0))
                 ELSE Minus(Times(Cs(j, n), Plus(D0(j), D0(f))), Times(Sn(j, n), Minus(D1(j), D1(f)))),
                 IF j = 0 THEN Minus(D0(0), D1(0))
                 ELSE Plus(Times(Cs(3 * j, n), Minus(D0(j), D0(f))), Times(Sn(3 * j, n), Plus(D1(j), D1(f)))) >>
        IN  Lin(S, S, IF e = i THEN Rows(i, i) ELSE Rows(i, e) \o Rows(e, i))
  IN  Steps(0, q \div 2, One)

\* least primitive root modulo the prime n
PrimRoot(n) == IF n = 2 THEN 1
               ELSE CHOOSE g \in 1..(n - 1) : (\A e \in 1..(n - 2) : Pow(g, e, n) # 1)
                                              /\ \A f \in 1..(g - 1) : \E e \in 1..(n - 2) : Pow(f, e, n) = 1
\* transform of the reordered kernel, divided by n-1
RaderKernel(n) ==
  LET l == n - 1
      gi == Pow(PrimRoot(n), n - 2, n)
      K == [i \in 0..(l - 1) |-> Mul(CasT(Pow(gi, i, n), n), Inv(l % P, P), P)]
  IN  [k \in 0..(l - 1) |-> LET T(i) == Mul(K[i], CasT(i * k, l), P) IN SumOp(T, 0, l - 1, P)]
RaderTable == [n \in {q \in 2..NMax : Prime(q)} |-> [g |-> PrimRoot(n), D |-> RaderKernel(n)]]
\* dst (l cells) := product of the spectrum in src with the kernel, src[0] apart
RaderMix(src, dst, n) ==
  LET l == n - 1
      D == RaderTable[n].D
      One(i) ==
        LET e == (l - i) % l
            hs(k) == Mul((D[k] + D[(l - k) % l]) % P, Half, P)
            hd(k) == Mul((D[k] - D[(l - k) % l]) % P, Half, P)
        IN  IF e = i THEN Lin(<<At(dst, i)>>, <<At(src, i)>>, <<<<D[i]>>>>)
            ELSE Lin(<<At(dst, i), At(dst, e)>>, <<At(src, i), At(src, e)>>, <<<<hs(i), hd(i)>>, <<hd(e), hs(e)>>>>)
  IN  Steps(1, l \div 2, One)

RECURSIVE Digits(_, _, _, _)
\* source index of each cell after the recursive radix-4 reordering
Digits(size, base, off, stride) ==
  IF size = base THEN [i \in 1..size |-> off + (i - 1) * stride]
  ELSE Digits(size \div 4, base, off, stride * 4) \o Digits(size \div 4, base, off + stride, stride * 4)
    \o Digits(size \div 4, base, off + 2 * stride, stride * 4) \o Digits(size \div 4, base, off + 3 * stride, stride * 4)
RECURSIVE Layers(_, _, _)
Layers(R, n, size) ==
  IF size > n THEN <<>>
  ELSE Flat([i \in 1..(n \div size) |-> Columns(Reg(R.o + (i - 1) * size, size), 4, size \div 4)]) \o Layers(R, n, size * 4)
Radix4Base(n) == IF n <= 4 THEN n
                 ELSE IF \E e \in 1..10 : n = 2 * 4^e THEN 8 ELSE 16
Radix4Oop(in, out, n) ==
  LET base == Radix4Base(n)
      dg == Digits(n, base, 0, 1)
  IN  <<Copy(Cells(out), [i \in 1..n |-> At(in, dg[i])])>>
      \o [i \in 1..(n \div base) |-> LET c == Cells(Reg(out.o + (i - 1) * base, base)) IN Lin(c, c, Matrix(base))]
      \o Layers(out, n, base * 4)

-----------------------------------------------------------------------------
(* one segment; a call on any number of segments *)
RECURSIVE Seg(_, _, _, _, _), Call(_, _, _, _, _)
Call(t, mode, in, out, scr) ==
  LET n == TLen(t)
      need == Adv(t, mode)
      s == IF scr.n >= need THEN First(scr, need) ELSE scr
      Piece(r, i) == Reg(r.o + i * n, n)
  IN  <<CallOp(t, mode, in, out, scr)>>
      \o (IF n = 0 \/ ~ValidCall(n, mode, in.n, out.n, scr.n, need) THEN <<>>
          ELSE Flat([i \in 1..(in.n \div n) |-> Seg(t, mode, Piece(in, i - 1), IF mode = "oop" THEN Piece(out, i - 1) ELSE out, s)]))

Seg(t, mode, in, out, scr) ==
  LET n == TLen(t)
      ip == mode # "oop"
  IN CASE t.k = "n" -> IF ip THEN (IF Bug = "naive-twice" THEN <<Lin(Cells(First(scr, n)), Cells(in), Matrix(n))>> ELSE <<>>)
                                  \o <<Lin(Cells(First(scr, n)), Cells(in), Matrix(n)), Copy(Cells(in), Cells(First(scr, n)))>>
                       ELSE <<Lin(Cells(out), Cells(in), Matrix(n))>>
       [] t.k = "b" -> IF ip THEN <<Lin(Cells(in), Cells(in), Matrix(n))>> ELSE <<Lin(Cells(out), Cells(in), Matrix(n))>>
       [] t.k = "u" -> (IF ip THEN <<ULin(Cells(in), Cells(in), Matrix(n)), Junk(scr, t.ip)>>
                        ELSE <<ULin(Cells(out), Cells(in), Matrix(n)), Junk(in, n), Junk(scr, t.oop)>>)
       [] t.k = "r" -> IF ip THEN <<Copy(Cells(First(scr, n)), Cells(in))>> \o Radix4Oop(scr, in, n) ELSE Radix4Oop(in, out, n)
       [] t.k = "x" ->
            IF ip THEN <<Transpose(in, scr, t.w, n \div t.w)>> \o Call(t.a, "oop", First(scr, n), in, From(scr, n)) \o Columns(in, t.w, n \div t.w)
            ELSE <<Transpose(in, out, t.w, n \div t.w)>> \o Call(t.a, "ip", out, out, IF scr.n > n THEN scr ELSE in) \o Columns(out, t.w, n \div t.w)
       [] t.k = "m" ->
            LET w == TLen(t.a)
                h == TLen(t.b)
                own == IF ip THEN First(scr, n) ELSE out
                rest == IF ip THEN From(scr, n) ELSE scr
            IN  <<Transpose(in, own, w, h)>>
                \o Call(t.b, "ip", own, own, IF rest.n > n THEN rest ELSE in)
                \o Twiddles(own, w, h)
                \o <<Transpose(own, in, h, w)>>
                \o (IF ip THEN Call(t.a, "oop", in, own, rest) \o <<Transpose(own, in, w, h)>>
                    ELSE Call(t.a, "ip", in, in, IF rest.n > n THEN rest ELSE own) \o <<Transpose(in, own, w, h)>>)
       [] t.k = "p" ->
            LET l == n - 1
                g == RaderTable[n].g
                gi == Pow(g, n - 2, n)
                gath(r) == [i \in 1..l |-> At(r, Pow(g, i - 1, n))]
                scat(r) == [i \in 1..l |-> At(r, Pow(gi, i - 1, n))]
                D0 == RaderTable[n].D[0]
            IN  IF ip
                THEN LET own == First(scr, l)
                         rest == From(scr, l)
                         isc == IF rest.n > 0 THEN rest ELSE From(in, IF Bug = "rader-first" THEN 0 ELSE 1)
                     IN  <<Copy(Cells(own), gath(in))>> \o Call(t.a, "ip", own, own, isc)
                         \o <<Lin(<<in.o, own.o>>, <<in.o, own.o>>, <<<<1, 1>>, <<1, D0>>>>)>> \o RaderMix(own, own, n)
                         \o Call(t.a, "ip", own, own, isc) \o <<Copy(scat(in), Cells(own))>>
                ELSE LET in1 == From(in, 1)
                         out1 == From(out, 1)
                     IN  <<Copy(Cells(out1), gath(in))>> \o Call(t.a, "ip", out1, out1, IF scr.n > 0 THEN scr ELSE in1)
                         \o <<Lin(<<out.o, in1.o>>, <<in.o, out1.o>>, <<<<1, 1>>, <<1, D0>>>>)>> \o RaderMix(out1, in1, n)
                         \o Call(t.a, "ip", in1, in1, IF scr.n > 0 THEN scr ELSE out1) \o <<Copy(scat(out), Cells(in1))>>
       [] t.k = "s" ->
            LET q == n \div 4
                ev == First(in, 2 * q)
                od == From(in, 2 * q)
            IN  IF ip
                THEN SplitStage(in) \o Call(t.b, "ip", ev, ev, scr) \o Call(t.a, "oop", od, First(scr, 2 * q), From(scr, 2 * q))
                     \o <<Copy([i \in 1..n |-> At(in, i - 1)],
                               [i \in 1..n |-> CASE (i - 1) % 2 = 0 -> At(in, (i - 1) \div 2)
                                                 [] (i - 1) % 4 = 1 -> At(scr, (i - 1) \div 4)
                                                 [] OTHER -> At(scr, q + (i - 1) \div 4)])>>
                ELSE LET isc == IF scr.n > n THEN scr ELSE out
                     IN  SplitStage(in) \o Call(t.b, "ip", ev, ev, isc) \o Call(t.a, "ip", od, od, isc)
                         \o <<Copy([i \in 1..n |-> At(out, i - 1)],
                                   [i \in 1..n |-> CASE (i - 1) % 2 = 0 -> At(in, (i - 1) \div 2)
                                                     [] (i - 1) % 4 = 1 -> At(od, (i - 1) \div 4)
                                                     [] OTHER -> At(od, q + (i - 1) \div 4)])>>

\* a user's call; process obtains its scratch from the heap
Program(t, mode, in, out, scr) ==
  IF mode = "p" THEN <<Alloc(scr)>> \o Call(t, "ip", in, out, scr) \o (IF Bug = "leak" THEN <<>> ELSE <<Free(scr)>>)
  ELSE IF Bug = "own-scratch" /\ t.k = "x" /\ mode = "oop" THEN <<Alloc(scr)>> \o Call(t, mode, in, out, scr) \o <<Free(scr)>>
  ELSE Call(t, mode, in, out, scr)

-----------------------------------------------------------------------------
(* execution *)
Combine(row, cells) ==
  LET used == {j \in 1..Len(row) : row[j] # 0}
  IN  IF \E j \in used : cells[j] = <<>> THEN <<>>
      ELSE [v \in 1..Len(cells[CHOOSE j \in 1..Len(cells) : cells[j] # <<>>]) |->
              LET T(j) == IF row[j] = 0 THEN 0 ELSE Mul(row[j], cells[j][v], P) IN SumOp(T, 1, Len(row), P)]

Exec(op, mem) ==
  CASE op.op \in {"call", "free"} -> mem
    [] op.op \in {"junk", "alloc"} -> [a \in DOMAIN mem |-> IF \E i \in 1..Len(op.d) : op.d[i] = a THEN <<>> ELSE mem[a]]
    [] op.op = "copy" -> LET pos == [a \in {op.d[i] : i \in 1..Len(op.d)} |-> CHOOSE i \in 1..Len(op.d) : op.d[i] = a]
                         IN  [a \in DOMAIN mem |-> IF a \in DOMAIN pos THEN mem[op.s[pos[a]]] ELSE mem[a]]
    [] op.op \in {"lin", "ulin"} -> LET pos == [a \in {op.d[i] : i \in 1..Len(op.d)} |-> CHOOSE i \in 1..Len(op.d) : op.d[i] = a]
                             src == [j \in 1..Len(op.s) |-> mem[op.s[j]]]
                         IN  [a \in DOMAIN mem |-> IF a \in DOMAIN pos THEN Combine(op.m[pos[a]], src) ELSE mem[a]]
=============================================================================
