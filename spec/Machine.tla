------------------------------- MODULE Machine -------------------------------
(***************************************************************************)
(* The array machine as a closed system: the effect of a call is the one   *)
(* the specification (Exp) gives it.  Bounded models choose the calls.     *)
(*                                                                         *)
(*   arr, heap : as in Redstone                                            *)
(*   par       : slot -> slot it borrows from (0: none)                    *)
(*   nb        : number of buffers ever allocated                          *)
(***************************************************************************)
EXTENDS Redstone

H0 == [md |-> "fp", z |-> 0, nz |-> 0, nan |-> -1, abs |-> <<>>]
C0 == [op |-> "", s |-> <<>>, c |-> <<>>, d |-> 0, n |-> <<>>, f |-> "", v |-> <<>>, t |-> <<>>,
       lab |-> <<>>, lo |-> <<>>, x |-> <<>>]
Nothing == [x \in {} |-> 0]
Less(f, S) == [x \in DOMAIN f \ S |-> f[x]]

\* state after call e whose outcome is x
MStep(arr, heap, par, nb, e, x) ==
    LET ok == x.st \in {"ok", "any"}
        a0 == Less(arr, ToSet(e.c))
        p0 == Less(par, ToSet(e.c))
        h1 == IF ok /\ x.wr.b # 0 THEN [heap EXCEPT ![x.wr.b] = x.wr.q] ELSE heap
        keep == IF ok /\ x.k = "view" /\ x.own /\ e.d # 0 THEN {x.buf} ELSE {}
        h2 == Less(h1, FreedExp(arr, e) \ keep)
        put(buf, own, cells) ==
            (e.d :> [buf |-> buf, sh |-> x.sh, cells |-> cells, own |-> own, ro |-> RoOf(arr, e),
                     unif |-> Uniform(cells), contig |-> Adjacent(cells)]) @@ a0
    IN IF ~ok \/ e.d = 0 \/ x.k \notin {"view", "fresh"} THEN [arr |-> a0, heap |-> h2, par |-> p0, nb |-> nb]
       ELSE IF x.k = "view"
       THEN [arr |-> put(x.buf, x.own, x.cells), heap |-> h2,
             par |-> (e.d :> IF e.f = "c" THEN par[e.s[1]] ELSE e.s[1]) @@ p0, nb |-> nb]
       ELSE [arr |-> put(nb + 1, TRUE, [k \in 1..Len(x.q) |-> k - 1]), heap |-> ((nb + 1) :> x.q) @@ h2,
             par |-> (e.d :> 0) @@ p0, nb |-> nb + 1]

\* --------------------------------------------------- invariants of the machine
CellsInBounds(arr, heap) == \A s \in DOMAIN arr :
    /\ arr[s].buf \in DOMAIN heap
    /\ Len(arr[s].cells) = Size(arr[s].sh)
    /\ \A i \in DOMAIN arr[s].cells : arr[s].cells[i] \in 0..(Len(heap[arr[s].buf]) - 1)
\* no storage without owner (leak) and none with two (double free)
OneOwner(arr, heap) == \A b \in DOMAIN heap :
    Cardinality({s \in DOMAIN arr : arr[s].own /\ arr[s].buf = b}) = 1
\* a view's source is alive
Borrowed(arr, par) == \A s \in DOMAIN arr : ~arr[s].own => par[s] \in DOMAIN arr
\* writing through an array is unambiguous
WritableDistinct(arr) == \A s \in DOMAIN arr : ~arr[s].ro => NoDup(arr[s].cells)

\* only an in-place operation changes memory, and only the cells of its target
FrameOk(arr, heap, e, x) ==
    x.st \in {"ok", "any"} /\ x.wr.b # 0 =>
       /\ InPlace(e.op) /\ x.wr.b = arr[e.s[1]].buf /\ Len(x.wr.q) = Len(heap[x.wr.b])
       /\ \A i \in DOMAIN x.wr.q : x.wr.q[i] = heap[x.wr.b][i] \/ (i - 1) \in ToSet(arr[e.s[1]].cells)

\* ------------------------------------------ laws the expected outcomes satisfy
At(sh, q, ix) == q[Ravel(ix, sh) + 1]
AllIx(sh) == {Unravel(k, sh) : k \in 0..(Size(sh) - 1)}
Drop2(ix, i, j) == LET lo == Min2(i, j)  hi == Max2(i, j) IN RemAt(RemAt(ix, hi), lo)
\* brute force: sum over all assignments of the labels not in the output
EinBrute(shs, els, lab, lo, oix) ==
    LET L == LabelsOf(lab)
        D == [l \in L |-> LabDim(shs, lab, l)]
        fixed == [l \in ToSet(lo) |-> oix[CHOOSE k \in DOMAIN lo : lo[k] = l]]
        Asg == {f \in [L -> 0..(IF L = {} THEN 0 ELSE CHOOSE m \in {D[l] : l \in L} : \A l \in L : D[l] <= m)] :
                   \A l \in L : f[l] < D[l] /\ (l \in ToSet(lo) => f[l] = fixed[l])}
        term(f) == FoldLeft(LAMBDA p, i : MulP(p, At(shs[i], els[i], [k \in DOMAIN lab[i] |-> f[lab[i][k]]])), 1, Range1(Len(shs)))
    IN FoldLeft(LAMBDA a, f : AddP(a, term(f)), 0, SetToSeq(Asg))
EinLaw(shs, els, lab, lo, x) ==
    \A ix \in AllIx(x.sh) : At(x.sh, x.q, ix) = EinBrute(shs, els, lab, lo, ix)

LawOk(arr, heap, e, x) ==
    LET o == e.op
        A == arr[e.s[1]]  E == Els(heap, A)  sh == A.sh
        B == arr[e.s[2]]  F == Els(heap, B)
    IN x.st \in {"panic", "free"} \/
    CASE o \in {"reshape", "squeeze", "unsqueeze", "view", "clone", "flatten"} -> x.q = E
      [] o \in {"T", "transpose"} ->
            LET a == IF o = "T" THEN 0 ELSE e.n[1]  b == IF o = "T" THEN 1 ELSE e.n[2]
                i == AxisAbs(a, Len(sh)) + 1  j == AxisAbs(b, Len(sh)) + 1
            IN /\ \A ix \in AllIx(x.sh) : At(x.sh, x.q, ix) = At(sh, E, Swap(ix, i, j))
               /\ Pick(x.cells, VTranspose(x.sh, a, b).g) = A.cells
      [] o = "diag" ->
            LET i == AxisAbs(e.n[2], Len(sh)) + 1  j == AxisAbs(e.n[3], Len(sh)) + 1 IN
            /\ Len(x.sh) = Len(sh) - 1
            /\ \A ix \in AllIx(sh) : ix[j] - ix[i] = e.n[1] =>
                 \E k \in {ix[i], ix[j]} : At(x.sh, x.q, Append(Drop2(ix, i, j), Min2(ix[i], ix[j]))) = At(sh, E, ix)
      [] o = "broadcast_to" ->
            \A ix \in AllIx(x.sh) : At(x.sh, x.q, ix) =
                At(sh, E, [k \in 1..Len(sh) |-> IF sh[k] = 1 THEN 0 ELSE ix[k + Len(x.sh) - Len(sh)]])
      [] o = "slice" ->
            LET cs == Triples(e.n)
                full == [k \in 1..Len(sh) |-> IF k <= Len(cs) THEN cs[k] ELSE <<3, 0, 0>>]
                keep == {k \in 1..Len(sh) : full[k][1] # 0}
            IN \A ix \in AllIx(x.sh) : \E src \in AllIx(sh) :
                 /\ Sel([k \in 1..Len(sh) |-> src[k] - SliceStart(full[k])], keep) = ix
                 /\ \A k \in 1..Len(sh) : k \notin keep => src[k] = full[k][2]
                 /\ At(x.sh, x.q, ix) = At(sh, E, src)
      [] o = "iter" -> FlattenSeq([k \in DOMAIN x.items |-> x.items[k].q]) = E \/ e.f # "plain"
      [] o = "reduce" ->
            /\ e.t[1] = "sum" => SumP(x.q) = SumP(E)
            /\ e.t[1] = "product" => ProdP(x.q) = ProdP(E)
            /\ e.t[1] = "min" => MinS([k \in DOMAIN x.q |-> Cent(x.q[k])]) = MinS([k \in DOMAIN E |-> Cent(E[k])])
            /\ e.t[1] = "max" => MaxS([k \in DOMAIN x.q |-> Cent(x.q[k])]) = MaxS([k \in DOMAIN E |-> Cent(E[k])])
      [] o = "trace" -> Len(sh) = 2 =>
            x.q[1] = SumP([k \in 1..Len(E) |-> LET ix == Unravel(k - 1, sh)
                              d == IF AxisAbs(e.n[2], 2) = 0 THEN ix[2] - ix[1] ELSE ix[1] - ix[2]
                              IN IF d = e.n[1] THEN E[k] ELSE 0])
      [] o = "einsum" -> EinLaw([i \in DOMAIN e.s |-> arr[e.s[i]].sh], [i \in DOMAIN e.s |-> Els(heap, arr[e.s[i]])], e.lab, e.lo, x)
      [] o = "einsum_view" -> x.k = "view" => EinLaw(<<sh>>, <<E>>, e.lab, e.lo, x)
      [] o = "mat" -> LET m == MatLabels(e.t[1], sh, B.sh) IN EinLaw(<<sh, B.sh>>, <<E, F>>, m[1], m[2], x)
      [] o = "binop" -> Len(e.s) = 2 =>
            \A ix \in AllIx(x.sh) :
               LET at(s, q) == At(s, q, [k \in 1..Len(s) |-> IF s[k] = 1 THEN 0 ELSE ix[k + Len(x.sh) - Len(s)]])
               IN At(x.sh, x.q, ix) = FpOp(e.t[1], at(sh, E), at(B.sh, F))
      [] OTHER -> TRUE
=============================================================================
