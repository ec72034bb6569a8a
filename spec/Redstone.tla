------------------------------ MODULE Redstone ------------------------------
(***************************************************************************)
(* The array machine: the state reachable through redstone-ml's NdArray    *)
(* API and, for every operation, the outcome the library owes its user.    *)
(*                                                                         *)
(*   heap : buffer id -> sequence of element tokens                        *)
(*   arr  : slot -> [buf, sh, cells, own, ro, unif, contig]                *)
(*          cells lists, in row-major order, the cells of heap[buf] that   *)
(*          the array presents                                             *)
(*                                                                         *)
(* An operation e is a record (op, s = source slots, c = consumed slots,   *)
(* d = destination slot, n = integers, v = input tokens, ...).  Exp gives  *)
(* the expected outcome                                                    *)
(*   st : "ok" must succeed / "panic" must be refused / "any" may do       *)
(*        either but must be right if it succeeds / "free" unconstrained   *)
(*   k  : kind of result ("view","fresh","seq","items","bool","none")      *)
(*   wr : buffer contents to be written (in-place operations)              *)
(***************************************************************************)
EXTENDS Core

\* ------------------------------------------------------------ value handling
\* h: program header [md, z, nz, nan, abs]
NormT(h, t) == IF h.nz > 0 /\ t = h.nz THEN h.z ELSE t
SameEls(h, a, b) == \/ a = b
                    \/ /\ h.nz > 0 /\ Len(a) = Len(b)
                       /\ \A i \in DOMAIN a : NormT(h, a[i]) = NormT(h, b[i])

Els(heap, a) == TLCEval([k \in 1..Len(a.cells) |-> heap[a.buf][a.cells[k] + 1]])

\* ------------------------------------------------------------------ outcomes
None == [b |-> 0, q |-> <<>>]
XPanic == [st |-> "panic", k |-> "none", sh |-> <<>>, cells |-> <<>>, q |-> <<>>, buf |-> 0,
           own |-> FALSE, items |-> <<>>, b |-> FALSE, wr |-> None]
XFree == [XPanic EXCEPT !.st = "free"]
XFresh(sh, q) == [XPanic EXCEPT !.st = "ok", !.k = "fresh", !.sh = sh, !.q = q, !.own = TRUE]
XSeq(q) == [XPanic EXCEPT !.st = "ok", !.k = "seq", !.q = q]
XItems(it) == [XPanic EXCEPT !.st = "ok", !.k = "items", !.items = it]
XBool(b) == [XPanic EXCEPT !.st = "ok", !.k = "bool", !.b = b]
XNone == [XPanic EXCEPT !.st = "ok"]
XWrite(buf, q) == [XNone EXCEPT !.wr = [b |-> buf, q |-> q]]

XView(heap, a, vw, own) ==
    IF vw.st = "panic" THEN XPanic
    ELSE IF vw.st = "free" THEN XFree
    ELSE LET cells == Pick(a.cells, vw.g)
         IN [XPanic EXCEPT !.st = "ok", !.k = "view", !.sh = vw.sh, !.cells = cells, !.buf = a.buf,
                           !.q = TLCEval([k \in 1..Len(cells) |-> heap[a.buf][cells[k] + 1]]), !.own = own]

\* ------------------------------------------------------- scalar operations
\* tab: [r, c, m] scalar operation table of the element type; entry 0 where
\* the scalar operation is undefined (overflow, division by zero, ...)
TabFn(ts) == TLCEval([t \in ToSet(ts) |-> CHOOSE i \in DOMAIN ts : ts[i] = t])
FpOp(o, a, b) == CASE o = "+" -> AddP(a, b) [] o = "-" -> SubP(a, b) [] o = "*" -> MulP(a, b)
                   [] o = "/" -> MulP(a, InvP(b))
ZipOp(h, e, xs, ys) ==
    IF h.md = "fp"
    THEN TLCEval([k \in 1..Len(xs) |-> FpOp(e.t[1], xs[k], ys[k])])
    ELSE LET ri == TabFn(e.tab.r)  ci == TabFn(e.tab.c)
         IN TLCEval([k \in 1..Len(xs) |-> e.tab.m[ri[xs[k]]][ci[ys[k]]]])
Undef(h, q) == h.md # "fp" /\ \E k \in DOMAIN q : q[k] = 0

\* ---------------------------------------------------------------- reductions
RedFold(h, o, s) ==
    CASE o = "sum" -> SumX(s)
      [] o = "product" -> ProdX(s)
      [] o = "mean" -> IF AllFin(s) THEN MulP(SumP(s), InvP(ResP(Len(s)))) ELSE SumX(s)
      [] o = "min" -> IF h.md = "fp" THEN ResP(MinS([i \in DOMAIN s |-> Cent(s[i])])) ELSE MinS(s)
      [] o = "max" -> IF h.md = "fp" THEN ResP(MaxS([i \in DOMAIN s |-> Cent(s[i])])) ELSE MaxS(s)
      [] o = "min_magnitude" -> IF h.md = "fp" THEN ResP(MinS([i \in DOMAIN s |-> Abs(Cent(s[i]))]))
                                ELSE IF \E i \in DOMAIN s : h.abs[s[i]] = 0 THEN 0 ELSE MinS([i \in DOMAIN s |-> h.abs[s[i]]])
      [] o = "max_magnitude" -> IF h.md = "fp" THEN ResP(MaxS([i \in DOMAIN s |-> Abs(Cent(s[i]))]))
                                ELSE IF \E i \in DOMAIN s : h.abs[s[i]] = 0 THEN 0 ELSE MaxS([i \in DOMAIN s |-> h.abs[s[i]]])
XReduceAlong(h, o, sh, els, axes) ==
    IF \E i \in DOMAIN axes : ~AxisOk(axes[i], Len(sh)) THEN XPanic
    ELSE LET ab == [i \in 1..Len(axes) |-> AxisAbs(axes[i], Len(sh)) + 1]
         IN IF ~NoDup(ab) THEN XPanic
            ELSE LET keep == (1..Len(sh)) \ ToSet(ab)
                     bases == SubBases(sh, keep)
                     inner == SubGrid(sh, keep)
                     q == TLCEval([k \in 1..Len(bases) |->
                            RedFold(h, o, [j \in 1..Len(inner) |-> els[bases[k] + inner[j] + 1]])])
                 IN IF h.md # "fp" /\ \E k \in DOMAIN q : q[k] = 0 THEN XFree
                    ELSE XFresh(Sel(sh, keep), q)

\* ------------------------------------------------------------ binary, matrix
XBin(h, e, sha, ea, shb, eb) ==
    IF ~BcOk(sha, shb) THEN XPanic
    ELSE LET sh == BcShape(sha, shb)
             xs == Pick(ea, VBroadcast(sha, sh).g)
             ys == Pick(eb, VBroadcast(shb, sh).g)
             q == ZipOp(h, e, xs, ys)
         IN IF Undef(h, q) THEN XFree ELSE XFresh(sh, q)

XEin(shs, els, lab, out) ==
    IF ~EinOk(shs, lab, out) THEN XPanic
    \* infinities: the terms may be factored, which matters where a summed label is not on every operand
    ELSE IF (\E i \in DOMAIN els : ~AllFin(els[i])) /\ (\E l \in ToSet(SumLabels(lab, out)), i \in DOMAIN lab : l \notin ToSet(lab[i]))
    THEN XFree
    ELSE XFresh(EinShape(shs, lab, out), EinEls(shs, els, lab, out))

\* the subscripts a matrix operation stands for; <<>> when the operands do not fit
MatLabels(o, sha, shb) ==
    CASE o = "dot" -> IF Len(sha) = 1 /\ Len(shb) = 1 THEN <<<<<<1>>, <<1>>>>, <<>>>> ELSE <<>>
      [] o = "bmm" -> IF Len(sha) = 3 /\ Len(shb) = 3 THEN <<<<<<1, 2, 3>>, <<1, 3, 4>>>>, <<1, 2, 4>>>> ELSE <<>>
      [] o = "matmul" -> IF Len(sha) = 1 /\ Len(shb) = 1 THEN <<<<<<1>>, <<1>>>>, <<>>>>
                         ELSE IF Len(sha) = 2 /\ Len(shb) = 1 THEN <<<<<<1, 2>>, <<2>>>>, <<1>>>>
                         ELSE IF Len(sha) = 2 /\ Len(shb) = 2 THEN <<<<<<1, 2>>, <<2, 3>>>>, <<1, 3>>>>
                         ELSE <<>>
XMat(o, sha, ea, shb, eb) ==
    LET ml == MatLabels(o, sha, shb) IN
    IF ml = <<>> THEN XPanic ELSE XEin(<<sha, shb>>, <<ea, eb>>, ml[1], ml[2])

\* -------------------------------------------------------------- nested data
\* x is data nested d levels deep
RECURSIVE NestEmpty(_, _)
NestEmpty(x, d) == x = <<>> \/ (d > 1 /\ \E i \in DOMAIN x : NestEmpty(x[i], d - 1))
RECURSIVE NestShape(_, _)
NestShape(x, d) == IF d = 1 THEN <<Len(x)>> ELSE <<Len(x)>> \o NestShape(x[1], d - 1)
RECURSIVE NestRect(_, _)
NestRect(x, d) == d = 1 \/ (/\ \A i \in DOMAIN x : NestRect(x[i], d - 1)
                            /\ \A i \in DOMAIN x : NestShape(x[i], d - 1) = NestShape(x[1], d - 1))
RECURSIVE NestFlat(_, _)
NestFlat(x, d) ==      \* of rectangular data
    IF d = 1 THEN x
    ELSE LET y == TLCEval([i \in DOMAIN x |-> NestFlat(x[i], d - 1)])  m == Len(y[1])
         IN TLCEval([k \in 1..(Len(y) * m) |-> y[((k - 1) \div m) + 1][((k - 1) % m) + 1]])
XNew(x, d) == IF NestEmpty(x, d) THEN XPanic
              ELSE IF ~NestRect(x, d) THEN XPanic
              ELSE XFresh(NestShape(x, d), NestFlat(x, d))

\* --------------------------------------------------------------- sequences
\* arange: n = <<start, stop, step, scale>> in units of 1/scale above base v[1];
\* scale < 0: in units of 1/-scale, the tokens being those of the values times -scale
CeilDiv(a, b) == IF b < 0 THEN -(a \div (-b)) ELSE -((-a) \div b)
XArange(h, n, v) ==
    LET cnt == CeilDiv(n[2] - n[1], n[3]) IN
    IF cnt <= 0 THEN [XFresh(<<0>>, <<>>) EXCEPT !.st = "any"]   \* refused or empty
    ELSE LET inv == InvP(ResP(n[4]))
         IN IF n[4] < 0 THEN XFresh(<<cnt>>, [i \in 1..cnt |-> ResP(n[1] + (i - 1) * n[3])])
            ELSE XFresh(<<cnt>>, [i \in 1..cnt |-> AddP(v[1], MulP(ResP(n[1] + (i - 1) * n[3]), inv))])
\* linspace: n = <<start, stop, num, exclusive>>; the tokens are those of the
\* values multiplied by the number of steps
XLinspace(n) ==
    IF n[3] = 0 THEN XPanic
    ELSE LET steps == IF n[3] = 1 THEN 1 ELSE IF n[4] = 1 THEN n[3] ELSE n[3] - 1
         IN XFresh(<<n[3]>>, [i \in 1..n[3] |-> ResP(n[1] * steps + (i - 1) * (n[2] - n[1]))])

\* -------------------------------------------------------------- expectation
Triples(n) == [i \in 1..(Len(n) \div 3) |-> <<n[3 * i - 2], n[3 * i - 1], n[3 * i]>>]
\* q with cells[k] set to vals[k] (the cells are distinct)
SetCells(q, cells, vals) ==
    IF Adjacent(cells)
    THEN LET a == cells[1]  n == Len(cells) IN
         TLCEval([i \in 1..Len(q) |-> IF i > a /\ i <= a + n THEN vals[i - a] ELSE q[i]])
    ELSE FoldLeft(LAMBDA acc, k : [acc EXCEPT ![cells[k] + 1] = vals[k]], q, Range1(Len(cells)))

\* a repeated operand may be factored out of a sum, which matters to infinities
Factored(heap, arr, s) == (\E i \in DOMAIN s : ~AllFin(heap[arr[s[i]].buf])) /\ \E i \in DOMAIN s : ~NoDup(arr[s[i]].cells)

Exp(h, arr, heap, e) ==
    LET o == e.op
        A == arr[e.s[1]]
        sh == A.sh
        E1 == Els(heap, A)
        B == arr[e.s[2]]
        E2 == Els(heap, B)
        own == e.f = "c" /\ A.own
        V(vw) == XView(heap, A, vw, own)
    IN
    CASE o = "view" -> V(VView(sh))
      [] o = "reshape" ->
            LET x == V(VReshape(sh, e.n)) IN
            IF x.st = "panic" \/ Size(e.n) = 0 THEN XPanic
            ELSE IF A.unif \/ e.n = sh THEN x ELSE [x EXCEPT !.st = "any"]
      [] o = "squeeze" -> V(VSqueeze(sh))
      [] o = "unsqueeze" -> V(VUnsqueeze(sh, e.n[1]))
      [] o = "T" -> V(VTranspose(sh, 0, 1))
      [] o = "transpose" -> V(VTranspose(sh, e.n[1], e.n[2]))
      [] o = "slice" -> V(VSlice(sh, Triples(e.n)))
      [] o = "slice_along" -> V(VSliceAlong(sh, e.n[1], <<e.n[2], e.n[3], e.n[4]>>))
      [] o = "diag" -> V(VDiag(sh, e.n[1], e.n[2], e.n[3]))
      [] o = "broadcast_to" -> IF 0 \in ToSet(e.n) THEN XFree ELSE V(VBroadcast(sh, e.n))
      [] o = "einsum_view" ->
            IF ~EinOk(<<sh>>, e.lab, e.lo) THEN XPanic
            ELSE IF SumLabels(e.lab, e.lo) # <<>> THEN XNone
            ELSE V(VEin(sh, e.lab[1], e.lo))
      [] o = "clone" -> XFresh(sh, E1)
      [] o = "flatten" -> XFresh(<<Size(sh)>>, E1)
      [] o = "astype" -> LET q == [k \in DOMAIN E1 |-> e.conv[E1[k]]] IN
                         IF 0 \in ToSet(q) THEN XPanic ELSE XFresh(sh, q)
      [] o = "value" -> IF Size(sh) = 1 THEN XSeq(E1) ELSE XPanic
      [] o = "data_slice" -> IF A.contig THEN XSeq(E1)
                             ELSE IF ~Adjacent(A.cells) THEN XPanic ELSE [XSeq(E1) EXCEPT !.st = "any"]
      [] o = "into_vec" -> IF ~A.own THEN XPanic
                           ELSE IF A.contig THEN XSeq(E1)
                           ELSE IF ~Adjacent(A.cells) THEN XPanic ELSE [XSeq(E1) EXCEPT !.st = "any"]
      [] o = "flatiter" -> XSeq(E1)
      [] o = "getidx" -> IF Len(e.n) # Len(sh) \/ \E i \in DOMAIN e.n : e.n[i] >= sh[i] THEN XPanic
                         ELSE XSeq(<<E1[Ravel(e.n, sh) + 1]>>)
      [] o = "setidx" -> IF Len(e.n) # Len(sh) THEN XPanic
                         ELSE IF \E i \in DOMAIN e.n : e.n[i] >= sh[i] THEN XPanic
                         ELSE IF A.ro THEN XPanic
                         ELSE XWrite(A.buf, SetCells(heap[A.buf], <<A.cells[Ravel(e.n, sh) + 1]>>, e.v))
      [] o = "iter" ->   \* n: axes to fix (1-based set, already absolute unless along)
            LET ax == IF e.f = "along" THEN IF AxisOk(e.n[1], Len(sh)) THEN <<AxisAbs(e.n[1], Len(sh))>> ELSE <<-1>>
                      ELSE e.n
            IN IF (\E i \in DOMAIN ax : ax[i] < 0 \/ ax[i] >= Len(sh)) \/ ~NoDup(ax) THEN XPanic
               ELSE LET S == {ax[i] + 1 : i \in DOMAIN ax}
                        bs == SubBases(sh, S)  g == SubGrid(sh, S)  ssh == SubShape(sh, S)
                    IN XItems([k \in 1..Len(bs) |->
                         [sh |-> ssh, q |-> TLCEval([j \in 1..Len(g) |-> E1[bs[k] + g[j] + 1]])]])
      [] o = "fill" -> IF A.ro THEN XPanic
                       ELSE XWrite(A.buf, SetCells(heap[A.buf], A.cells, [k \in DOMAIN A.cells |-> e.v[1]]))
      [] o = "binop" -> IF Len(e.s) = 1 THEN XBin(h, e, sh, E1, <<>>, e.v) ELSE XBin(h, e, sh, E1, B.sh, E2)
      [] o = "neg" -> LET q == IF h.md = "fp" THEN TLCEval([k \in DOMAIN E1 |-> NegP(E1[k])])
                               ELSE LET ri == TabFn(e.tab.r) IN TLCEval([k \in DOMAIN E1 |-> e.tab.m[ri[E1[k]]][1]])
                      IN IF Undef(h, q) THEN XFree ELSE XFresh(sh, q)
      [] o = "assign" ->
            LET shb == IF Len(e.s) = 1 THEN <<>> ELSE B.sh
                eb == IF Len(e.s) = 1 THEN e.v ELSE E2
                vb == VBroadcast(shb, sh)
            IN IF A.ro \/ vb.st = "panic" THEN XPanic
               ELSE LET q == ZipOp(h, e, E1, Pick(eb, vb.g))
                    IN IF Undef(h, q) THEN XFree
                       ELSE XWrite(A.buf, SetCells(heap[A.buf], A.cells, q))
      [] o = "reduce" ->
            IF e.f = "all" THEN XReduceAlong(h, e.t[1], sh, E1, [i \in 1..Len(sh) |-> i - 1])
            ELSE IF e.t[1] = "mean" /\ \E i \in DOMAIN e.n : e.n[i] < 0 THEN XFree
            ELSE XReduceAlong(h, e.t[1], sh, E1, e.n)
      [] o = "einsum" -> IF Factored(heap, arr, e.s) THEN XFree
                         ELSE XEin([i \in DOMAIN e.s |-> arr[e.s[i]].sh], [i \in DOMAIN e.s |-> Els(heap, arr[e.s[i]])],
                                   e.lab, e.lo)
      [] o = "mat" -> IF Factored(heap, arr, e.s) THEN XFree ELSE XMat(e.t[1], sh, E1, B.sh, E2)
      [] o = "trace" -> LET d == VDiag(sh, e.n[1], e.n[2], e.n[3]) IN
                        IF d.st # "ok" THEN XPanic
                        ELSE XReduceAlong(h, "sum", d.sh, Pick(E1, d.g), <<-1>>)
      [] o = "eq" -> XBool(sh = B.sh /\ \A k \in DOMAIN E1 : E1[k] # h.nan /\ NormT(h, E1[k]) = NormT(h, E2[k]))
      [] o = "debug" -> XSeq(DebugToks(sh, E1))
      [] o = "new" -> XNew(e.x, e.n[1])
      [] o = "full" -> IF 0 \in ToSet(e.n) THEN XPanic ELSE XFresh(e.n, Rep(Size(e.n), e.v[1]))
      [] o = "arange" -> XArange(h, e.n, e.v)
      [] o = "linspace" -> XLinspace(e.n)
      [] o = "drop" -> XNone

\* ------------------------------------------------------------- consequences
\* properties an operation's own result is governed by
OpTags(o) ==
    CASE o \in {"view", "reshape", "squeeze", "unsqueeze", "T", "transpose", "slice", "slice_along"} -> {"C01"}
      [] o = "diag" -> {"C01", "C10"}
      [] o = "broadcast_to" -> {"C05"}
      [] o \in {"clone", "flatten"} -> {"C02"}
      [] o \in {"astype", "eq", "debug"} -> {"C16"}
      [] o = "value" -> {"C04", "C17"}
      [] o \in {"data_slice", "into_vec"} -> {"C03"}
      [] o \in {"flatiter", "getidx", "iter"} -> {"C04"}
      [] o = "setidx" -> {"C04", "C07"}
      [] o \in {"fill", "assign"} -> {"C07"}
      [] o \in {"binop", "neg"} -> {"C06"}
      [] o = "reduce" -> {"C08"}
      [] o \in {"einsum", "einsum_view"} -> {"C09"}
      [] o \in {"mat", "trace"} -> {"C10"}
      [] o \in {"new", "full", "arange", "linspace"} -> {"C15"}
      [] OTHER -> {"C14"}
InPlace(o) == o \in {"setidx", "fill", "assign"}
Tag(S, w) == {<<t, w>> : t \in S}
If(c, S) == IF c THEN S ELSE {}

\* binary operations on different shapes answer to broadcasting too
OpTagsOf(arr, e) ==
    OpTags(e.op) \cup
    (IF e.op \in {"binop", "assign"} /\ Len(e.s) = 2 /\ arr[e.s[1]].sh # arr[e.s[2]].sh
     THEN {"C05"} ELSE {})

\* every consumed owner's buffer is released or handed on to the result
FreedExp(arr, e) == {arr[s].buf : s \in {x \in ToSet(e.c) : arr[x].own}}

\* metadata of a reported array r with flat elements q over memory heap
CellsOf(r) == Grid(r.o, r.sh, r.st)
MetaIssues(heap, r, q) ==
    IF Len(r.st) # Len(r.sh) THEN Tag({"C03"}, "stride-dims")
    ELSE LET cells == CellsOf(r)  sz == Len(cells) IN
         If(r.nd # Len(r.sh) \/ r.sz # sz \/ r.ln # (IF r.sh = <<>> THEN 0 ELSE r.sh[1]), Tag({"C03"}, "dims"))
         \cup If(r.c /\ ~Adjacent(cells), Tag({"C03"}, "contiguous"))
         \cup If(r.u # (r.us >= 0), Tag({"C03"}, "uniform"))
         \cup If(r.us >= 0 /\ ~IsAP(cells, r.us), Tag({"C03"}, "uniform-stride"))
         \cup (IF sz = 0 THEN {} ELSE IF r.b \notin DOMAIN heap THEN Tag({"C14"}, "dangling")
               ELSE IF \E i \in DOMAIN cells : cells[i] < 0 \/ cells[i] >= Len(heap[r.b])
               THEN Tag({"C14", "C03"}, "out-of-bounds")
               ELSE If(q # [k \in 1..sz |-> heap[r.b][cells[k] + 1]], Tag({"C03", "C04"}, "elements-vs-layout")))

ResultIssues(h, arr, heap, heap2, e, x) ==
    LET T == OpTagsOf(arr, e) IN
    CASE x.k = "view" ->
            IF e.rk # "arr" THEN Tag(T, "no-result")
            ELSE LET r == e.r IN
                 If(r.sh # x.sh, Tag(T, "shape"))
                 \cup If(~SameEls(h, e.q, x.q), Tag(T, "elements"))
                 \cup If(r.b # x.buf, Tag({"C02"}, "buffer"))
                 \cup If(r.sh = x.sh /\ Len(r.st) = Len(r.sh) /\ r.b = x.buf /\ CellsOf(r) # x.cells, Tag({"C02"}, "cells"))
                 \cup If(r.vw = x.own, Tag({"C03", "C14"}, "owner"))
                 \cup MetaIssues(heap2, r, e.q)
      [] x.k = "fresh" ->
            IF e.rk # "arr" THEN Tag(T, "no-result")
            ELSE LET r == e.r IN
                 If(r.sh # x.sh, Tag(T, "shape"))
                 \cup If(~SameEls(h, e.q, x.q), Tag(T, "elements"))
                 \cup If(r.b \in DOMAIN heap /\ r.b \notin FreedExp(arr, e), Tag({"C02"}, "not-fresh"))
                 \cup If(r.vw, Tag({"C03"} \cup (T \cap {"C06", "C02"}), "not-owner"))
                 \cup If(~r.c \/ Len(r.st) # Len(r.sh)
                         \/ \E i \in DOMAIN r.sh : r.sh[i] > 1 /\ r.st[i] # CStr(r.sh)[i],
                         Tag({"C03"} \cup (T \cap {"C06"}), "not-row-major"))
                 \cup MetaIssues(heap2, r, e.q)
      [] x.k = "seq" -> If(e.rk # "seq" \/ ~SameEls(h, e.q, x.q), Tag(T, "elements"))
      [] x.k = "items" ->
            IF e.rk # "items" \/ Len(e.items) # Len(x.items) THEN Tag(T, "item-count")
            ELSE UNION {If(e.items[k].sh # x.items[k].sh \/ ~SameEls(h, e.items[k].q, x.items[k].q), Tag(T, "item"))
                        : k \in DOMAIN x.items}
      [] x.k = "bool" -> If(e.rk # "bool" \/ e.b # x.b, Tag(T, "answer"))
      [] OTHER -> If(e.rk # "none", Tag(T, "unexpected-result"))

MemQ(e, b) == LET i == CHOOSE i \in DOMAIN e.mem : e.mem[i].b = b IN e.mem[i].q
MemBufs(e) == {e.mem[i].b : i \in DOMAIN e.mem}

\* changes to existing memory: heap2 is the heap after e
MemoryIssues(h, arr, heap, heap2, e, x) ==
    LET T == OpTagsOf(arr, e)
        ch == {b \in MemBufs(e) \cap DOMAIN heap : heap2[b] # heap[b]}
        refused == e.out # "ok"
        xb == IF refused THEN 0 ELSE x.wr.b
    IN IF x.st = "free" THEN {}
       ELSE If(\E b \in ch : b # xb,
               IF refused THEN Tag({"C17"} \cup (T \cap {"C07"}), "changed-by-refused")
               ELSE Tag({"C02"} \cup (T \cap {"C06", "C07"}), "changed-other-memory"))
            \cup If(xb # 0 /\ xb \in DOMAIN heap2 /\ ~SameEls(h, heap2[xb], x.wr.q),
                    LET tc == ToSet(arr[e.s[1]].cells)
                        outside == Len(heap2[xb]) # Len(x.wr.q)
                                   \/ \E i \in DOMAIN x.wr.q : (i - 1) \notin tc /\ heap2[xb][i] # x.wr.q[i]
                    IN Tag(T, "written-values") \cup If(outside, Tag({"C02"}, "written-elsewhere")))

FreeIssues(arr, e) ==
    LET fr == ToSet(e.freed)
        ex == FreedExp(arr, e)
        owned == e.out = "ok" /\ e.rk = "arr" /\ ~e.r.vw
        handed == IF owned /\ e.d # 0 THEN {e.r.b} ELSE {}
        disc == IF owned /\ e.d = 0 THEN {e.r.b} ELSE {}   \* result dropped at once
    IN If(\E b \in fr : b \notin ex \cup disc, Tag({"C14"}, "freed-early"))
       \cup If(\E b \in disc : b > 0 /\ b \notin fr, Tag({"C14"}, "not-freed"))
       \cup If(\E b \in ex : b \notin fr /\ b \notin handed, Tag({"C14"}, "not-freed"))
       \cup If(\E b \in handed : b \in fr, Tag({"C14"}, "result-freed"))
       \cup If(e.err # <<>>, Tag({"C14"}, "memory-error"))

Issues(h, arr, heap, heap2, e) ==
    IF e.out \in {"crash", "hang"}
    THEN LET x == Exp(h, arr, heap, e) IN
         Tag({"C14"} \cup OpTagsOf(arr, e), e.out) \cup If(x.st = "panic", Tag({"C17"}, e.out))
    ELSE LET x == Exp(h, arr, heap, e)
             T == OpTagsOf(arr, e)
         IN (IF x.st = "free" THEN {}
             ELSE IF e.out = "panic"
             THEN If(x.st = "ok", Tag(T, "refused"))
             ELSE IF x.st = "panic" THEN Tag(T \cup {"C17"}, "not-refused")
             ELSE ResultIssues(h, arr, heap, heap2, e, x))
            \cup MemoryIssues(h, arr, heap, heap2, e, x)
            \cup FreeIssues(arr, e)

\* -------------------------------------------------------------- next state
\* (adopted from what was observed, so that one deviation is reported once)
NextHeap(heap, e) ==
    TLCEval(LET H == (DOMAIN heap \cup MemBufs(e)) \ ToSet(e.freed)
            IN [b \in H |-> IF b \in MemBufs(e) THEN MemQ(e, b) ELSE heap[b]])
\* observed memory before buffers released by e disappear
HeapWith(heap, e) ==
    TLCEval([b \in DOMAIN heap \cup MemBufs(e) |-> IF b \in MemBufs(e) THEN MemQ(e, b) ELSE heap[b]])
RoOf(arr, e) == e.op = "broadcast_to" \/ (e.op \in {"view", "reshape", "squeeze", "unsqueeze", "T", "transpose",
                 "slice", "slice_along", "diag", "einsum_view"} /\ arr[e.s[1]].ro)
NextArr(arr, e) ==
    LET base == [x \in DOMAIN arr \ ToSet(e.c) |-> arr[x]]
    IN TLCEval(IF e.out = "ok" /\ e.rk = "arr" /\ e.d # 0 /\ Len(e.r.st) = Len(e.r.sh)
       THEN (e.d :> [buf |-> e.r.b, sh |-> e.r.sh, cells |-> CellsOf(e.r), own |-> ~e.r.vw,
                     ro |-> RoOf(arr, e), unif |-> e.r.u, contig |-> e.r.c]) @@ base
       ELSE base)
=============================================================================
