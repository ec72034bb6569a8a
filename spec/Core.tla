-------------------------------- MODULE Core --------------------------------
(***************************************************************************)
(* Pure mathematics of strided arrays, used by every other module:         *)
(* shapes, row-major index spaces, index grids of view operations,         *)
(* broadcasting, folds over sub-grids and residue arithmetic.              *)
(*                                                                         *)
(* Elements are tokens (integers).  An index grid is the sequence, in      *)
(* row-major order of the result, of 0-based positions in some linear      *)
(* space (the row-major positions of the source, or memory cells).         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

P == 46337                                  \* prime, (P-1)^2 < 2^31

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a

\* ------------------------------------------------------------- sequences
Take(s, n) == SubSeq(s, 1, n)
Drop(s, n) == SubSeq(s, n + 1, Len(s))
RemAt(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Swap(s, i, j) == [s EXCEPT ![i] = s[j], ![j] = s[i]]
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Rep(n, x) == [i \in 1..n |-> x]
Pick(s, g) == TLCEval([k \in 1..Len(g) |-> s[g[k] + 1]])
NoDup(s) == Cardinality(ToSet(s)) = Len(s)
SeqProd(s) == FoldLeft(LAMBDA a, b : a * b, 1, s)
SeqSum(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
Filter(s, Test(_)) == SelectSeq(s, Test)
\* the elements of s at the positions in set I, in order
Sel(s, I) == LET ix == SelectSeq([i \in 1..Len(s) |-> i], LAMBDA i : i \in I)
             IN [k \in 1..Len(ix) |-> s[ix[k]]]
Range1(n) == [i \in 1..n |-> i]

\* ---------------------------------------------------- shapes and index grids
Size(sh) == SeqProd(sh)

RECURSIVE CStrR(_, _, _)
CStrR(sh, i, acc) == IF i = 0 THEN <<>> ELSE Append(CStrR(sh, i - 1, acc * sh[i]), acc)
\* row-major strides of a shape
CStr(sh) == CStrR(sh, Len(sh), 1)

Outer(g, n, st) ==
    IF n = 1 THEN g
    ELSE TLCEval([j \in 1..(Len(g) * n) |-> g[((j - 1) \div n) + 1] + ((j - 1) % n) * st])

RECURSIVE GridR(_, _, _, _)
GridR(g, sh, st, i) == IF i > Len(sh) THEN g ELSE GridR(Outer(g, sh[i], st[i]), sh, st, i + 1)
\* positions visited in row-major order by (offset, shape, strides)
Grid(off, sh, st) == GridR(<<off>>, sh, st, 1)

\* 0-based multi-index (sequence) of the k-th (0-based) element of shape sh
Unravel(k, sh) == LET cs == CStr(sh) IN [i \in 1..Len(sh) |-> (k \div cs[i]) % sh[i]]
Ravel(ix, sh) == LET cs == CStr(sh) IN SeqSum([i \in 1..Len(sh) |-> ix[i] * cs[i]])

\* consecutive entries of g differ by k everywhere
IsAP(g, k) == \A i \in 1..(Len(g) - 1) : g[i + 1] - g[i] = k
Adjacent(g) == IsAP(g, 1)
Uniform(g) == Len(g) < 2 \/ IsAP(g, g[2] - g[1])

\* ---------------------------------------------------------------------- axes
AxisOk(a, nd) == a >= -nd /\ a < nd
AxisAbs(a, nd) == IF a < 0 THEN a + nd ELSE a      \* 0-based

\* ------------------------------------------------ view operations as gathers
\* each returns [st, sh, g]: st \in {"ok","panic","free"}; g indexes the
\* row-major elements of the source
Bad == [st |-> "panic", sh |-> <<>>, g |-> <<>>]
Free == [st |-> "free", sh |-> <<>>, g |-> <<>>]
Gather(sh, off, st) == [st |-> "ok", sh |-> sh, g |-> Grid(off, sh, st)]

VView(sh) == Gather(sh, 0, CStr(sh))
VReshape(sh, sh2) == IF Size(sh2) # Size(sh) THEN Bad ELSE Gather(sh2, 0, CStr(sh2))
VSqueeze(sh) == LET s2 == SelectSeq(sh, LAMBDA n : n # 1) IN Gather(s2, 0, CStr(s2))
VUnsqueeze(sh, a) ==
    IF ~AxisOk(a, Len(sh) + 1) THEN Bad
    ELSE LET p == AxisAbs(a, Len(sh) + 1)
             s2 == Take(sh, p) \o <<1>> \o Drop(sh, p)
         IN Gather(s2, 0, CStr(s2))
VTranspose(sh, a, b) ==
    IF ~AxisOk(a, Len(sh)) \/ ~AxisOk(b, Len(sh)) THEN Bad
    ELSE LET i == AxisAbs(a, Len(sh)) + 1  j == AxisAbs(b, Len(sh)) + 1
         IN Gather(Swap(sh, i, j), 0, Swap(CStr(sh), i, j))

\* slice components <<kind, a, b>>
\*  0: a    1: a..b   2: a..   3: ..   4: a..=b   5: ..b   6: ..=b
SliceStart(c) == IF c[1] \in {0, 1, 2, 4} THEN c[2] ELSE 0
SliceLen(c, n) ==
    CASE c[1] = 0 -> 1
      [] c[1] = 1 -> c[3] - c[2]
      [] c[1] = 2 -> n - c[2]
      [] c[1] = 3 -> n
      [] c[1] = 4 -> c[3] - c[2] + 1
      [] c[1] = 5 -> c[3]
      [] c[1] = 6 -> c[3] + 1
SliceEmpty(c, n) == SliceLen(c, n) = 0
SliceBad(c, n) == SliceLen(c, n) < 0 \/ SliceStart(c) + SliceLen(c, n) > n
VSlice(sh, cs) ==
    IF Len(cs) > Len(sh) THEN Bad
    ELSE LET full == [i \in 1..Len(sh) |-> IF i <= Len(cs) THEN cs[i] ELSE <<3, 0, 0>>]
             I == 1..Len(sh)
         IN IF \E i \in I : SliceEmpty(full[i], sh[i]) THEN Free
            ELSE IF \E i \in I : SliceBad(full[i], sh[i]) THEN Bad
            ELSE LET st == CStr(sh)
                     off == SeqSum([i \in I |-> SliceStart(full[i]) * st[i]])
                     keep == {i \in I : full[i][1] # 0}
                     len == [i \in I |-> SliceLen(full[i], sh[i])]
                 IN Gather(Sel(len, keep), off, Sel(st, keep))
VSliceAlong(sh, a, c) ==
    IF ~AxisOk(a, Len(sh)) THEN Bad
    ELSE LET p == AxisAbs(a, Len(sh)) IN VSlice(sh, Rep(p, <<3, 0, 0>>) \o <<c>>)

VDiag(sh, off, a, b) ==
    IF Len(sh) < 2 \/ ~AxisOk(a, Len(sh)) \/ ~AxisOk(b, Len(sh)) THEN Bad
    ELSE LET i == AxisAbs(a, Len(sh)) + 1  j == AxisAbs(b, Len(sh)) + 1
             st == CStr(sh)
         IN IF i = j \/ (off >= 0 /\ off >= sh[j]) \/ (off < 0 /\ -off >= sh[i]) THEN Bad
            ELSE LET d1 == IF off < 0 THEN sh[i] + off ELSE sh[i]
                     d2 == IF off >= 0 THEN sh[j] - off ELSE sh[j]
                     o == IF off >= 0 THEN off * st[j] ELSE (-off) * st[i]
                     keep == (1..Len(sh)) \ {i, j}
                 IN Gather(Append(Sel(sh, keep), Min2(d1, d2)), o,
                           Append(Sel(st, keep), st[i] + st[j]))

PadL(s, n, x) == Rep(n - Len(s), x) \o s
VBroadcast(sh, to) ==
    IF Len(to) < Len(sh) THEN Bad
    ELSE LET ps == PadL(sh, Len(to), 1)  pst == PadL(CStr(sh), Len(to), 0)
         IN IF \E i \in 1..Len(to) : ps[i] # to[i] /\ ps[i] # 1 THEN Bad
            ELSE Gather(to, 0, [i \in 1..Len(to) |-> IF ps[i] = 1 THEN 0 ELSE pst[i]])

\* ------------------------------------------------------------- broadcasting
BcOk(a, b) == LET n == Max2(Len(a), Len(b))  x == PadL(a, n, 1)  y == PadL(b, n, 1)
              IN \A i \in 1..n : x[i] = y[i] \/ x[i] = 1 \/ y[i] = 1
BcShape(a, b) == LET n == Max2(Len(a), Len(b))  x == PadL(a, n, 1)  y == PadL(b, n, 1)
                 IN [i \in 1..n |-> Max2(x[i], y[i])]

\* ------------------------------------------------- sub-arrays by fixing axes
\* axes: set of 1-based axes; bases in row-major order of those axes, and the
\* grid of the remaining axes
SubBases(sh, A) == Grid(0, Sel(sh, A), Sel(CStr(sh), A))
SubShape(sh, A) == Sel(sh, (1..Len(sh)) \ A)
SubGrid(sh, A) == Grid(0, SubShape(sh, A), Sel(CStr(sh), (1..Len(sh)) \ A))

\* ---------------------------------------------------------------- folds mod P
AddP(a, b) == (a + b) % P
MulP(a, b) == (a * b) % P
NegP(a) == (P - a) % P
SubP(a, b) == (a + P - b) % P
RECURSIVE PowP(_, _)
PowP(a, n) == IF n = 0 THEN 1
              ELSE LET h == PowP(a, n \div 2) IN
                   IF n % 2 = 0 THEN MulP(h, h) ELSE MulP(MulP(h, h), a)
InvP(a) == PowP(a, P - 2)
ResP(a) == ((a % P) + P) % P                \* residue of an integer
Cent(t) == IF t > P \div 2 THEN t - P ELSE t  \* the small integer with that residue
SumP(s) == FoldLeft(LAMBDA a, b : (a + b) % P, 0, s)
ProdP(s) == FoldLeft(LAMBDA a, b : (a * b) % P, 1, s)
MinS(s) == FoldLeft(LAMBDA a, b : IF b < a THEN b ELSE a, s[1], s)
MaxS(s) == FoldLeft(LAMBDA a, b : IF b > a THEN b ELSE a, s[1], s)

\* extended numbers: finite ones by residue (then of magnitude below P/2 wherever
\* a special one is about), -1 not a number, -2 infinity, -3 negative infinity
AllFin(s) == \A i \in DOMAIN s : s[i] >= 0
SumX(s) == IF AllFin(s) THEN SumP(s)
           ELSE LET S == ToSet(s) IN
                IF -1 \in S \/ {-2, -3} \subseteq S THEN -1 ELSE IF -2 \in S THEN -2 ELSE -3
NegX(a) == IF a >= 0 THEN NegP(a) ELSE IF a = -1 THEN -1 ELSE -5 - a
IsNegX(a) == a = -3 \/ (a >= 0 /\ Cent(a) < 0)
ProdX(s) == IF AllFin(s) THEN ProdP(s)
            ELSE LET S == ToSet(s) IN
                 IF -1 \in S \/ 0 \in S THEN -1
                 ELSE IF Len(SelectSeq(s, IsNegX)) % 2 = 0 THEN -2 ELSE -3

\* ------------------------------------------------------------------- einsum
\* lab: sequence (one per operand) of label sequences; out: label sequence;
\* shs: operand shapes; els: operand elements.  Labels are positive integers.
LabelsOf(lab) == UNION {ToSet(lab[i]) : i \in DOMAIN lab}
EinOk(shs, lab, out) ==
    /\ Len(lab) = Len(shs) /\ Len(shs) > 0
    /\ \A i \in DOMAIN lab : Len(lab[i]) = Len(shs[i])
    /\ \A l \in LabelsOf(lab) \cup ToSet(out) : l > 0
    /\ ToSet(out) \subseteq LabelsOf(lab) /\ NoDup(out)
    /\ \A i, j \in DOMAIN lab : \A x \in DOMAIN lab[i], y \in DOMAIN lab[j] :
          lab[i][x] = lab[j][y] => shs[i][x] = shs[j][y]
LabDim(shs, lab, l) ==
    LET i == CHOOSE i \in DOMAIN lab : l \in ToSet(lab[i])
        x == CHOOSE x \in DOMAIN lab[i] : lab[i][x] = l
    IN shs[i][x]
\* summed labels in order of first appearance
SumLabels(lab, out) ==
    LET all == FlattenSeq(lab)
    IN FoldLeft(LAMBDA acc, l : IF l \in ToSet(acc) \/ l \in ToSet(out) THEN acc ELSE Append(acc, l), <<>>, all)
LabStr(sh, ls, l) == LET st == CStr(sh) IN
    SeqSum([k \in 1..Len(ls) |-> IF ls[k] = l THEN st[k] ELSE 0])
EinShape(shs, lab, out) == [k \in 1..Len(out) |-> LabDim(shs, lab, out[k])]
EinGrid(shs, lab, i, ls) ==
    Grid(0, [k \in 1..Len(ls) |-> LabDim(shs, lab, ls[k])],
            [k \in 1..Len(ls) |-> LabStr(shs[i], lab[i], ls[k])])
EinEls(shs, els, lab, out) ==
    LET sl == SumLabels(lab, out)
        n == Len(shs)
        og == TLCEval([i \in 1..n |-> EinGrid(shs, lab, i, out)])
        sg == TLCEval([i \in 1..n |-> EinGrid(shs, lab, i, sl)])
        no == Len(og[1])
        ns == Len(sg[1])
    IN TLCEval(
       IF \E i \in 1..n : ~AllFin(els[i]) THEN [k \in 1..no |->
            SumX([j \in 1..ns |-> ProdX([i \in 1..n |-> els[i][og[i][k] + sg[i][j] + 1]])])]
       ELSE IF n = 1 THEN [k \in 1..no |->
            FoldLeft(LAMBDA a, o : (a + els[1][og[1][k] + o + 1]) % P, 0, sg[1])]
       ELSE IF n = 2 THEN [k \in 1..no |->
            FoldLeft(LAMBDA a, j : (a + els[1][og[1][k] + sg[1][j] + 1] * els[2][og[2][k] + sg[2][j] + 1]) % P,
                     0, Range1(ns))]
       ELSE [k \in 1..no |->
            FoldLeft(LAMBDA a, j :
                       (a + FoldLeft(LAMBDA p, i : (p * els[i][og[i][k] + sg[i][j] + 1]) % P, 1, Range1(n))) % P,
                     0, Range1(ns))])
\* view form: no label summed
VEin(sh, ls, out) == Gather([k \in 1..Len(out) |-> LabDim(<<sh>>, <<ls>>, out[k])], 0,
                            [k \in 1..Len(out) |-> LabStr(sh, ls, out[k])])
\* ----------------------------------------------------------------- printing
RECURSIVE DebugToks(_, _)
DebugToks(sh, els) ==
    IF sh = <<>> THEN els
    ELSE LET n == Len(els) \div sh[1]
         IN <<-1>> \o FlattenSeq([i \in 1..sh[1] |-> DebugToks(Tail(sh), SubSeq(els, (i - 1) * n + 1, i * n))]) \o <<-2>>

=============================================================================
