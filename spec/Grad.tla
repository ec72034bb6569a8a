-------------------------------- MODULE Grad --------------------------------
(***************************************************************************)
(* The tensor machine: tensors, their computation history and gradients.   *)
(*                                                                         *)
(*   ten  : slot -> [k, sh, q, rg, user, nd, u]                            *)
(*          k = "t" tensor, "a" array obtained from a tensor; q elements   *)
(*          (residues mod P); nd history node (0 = none)                   *)
(*   node : sequence of history nodes [k, in, sh, ...]; inputs have        *)
(*          smaller indices.  k = "acc" is a gradient accumulator          *)
(*   acc  : accumulator node -> accumulated gradient                       *)
(*                                                                         *)
(* Values never change after a tensor has been created; a node keeps the   *)
(* values the computation used.                                            *)
(***************************************************************************)
EXTENDS Core

ZeroQ(n) == [k \in 1..n |-> 0]
MapQ(f(_), q) == TLCEval([k \in 1..Len(q) |-> f(q[k])])
ZipQ(f(_, _), a, b) == TLCEval([k \in 1..Len(a) |-> f(a[k], b[k])])
DivP(a, b) == MulP(a, InvP(b))

\* elements of an operand stretched to shape to
Stretch(q, sh, to) == IF sh = to THEN q ELSE Pick(q, VBroadcast(sh, to).g)
\* the adjoint of Stretch: sum over all positions an element was stretched to
Shrink(g, from, to) ==
    IF from = to THEN g
    ELSE LET ix == VBroadcast(to, from).g
         IN TLCEval(FoldLeft(LAMBDA a, k : [a EXCEPT ![ix[k] + 1] = (@ + g[k]) % P],
                             ZeroQ(Size(to)), Range1(Len(g))))

\* ------------------------------------------------------------------ products
\* labels of the three products as Einstein summations
MatLab(o, a, b) ==
    CASE o = "bmm" -> [i |-> <<<<1, 2, 3>>, <<1, 3, 4>>>>, o |-> <<1, 2, 4>>]
      [] Len(a) = 1 -> [i |-> <<<<1>>, <<1>>>>, o |-> <<>>]
      [] Len(b) = 1 -> [i |-> <<<<1, 2>>, <<2>>>>, o |-> <<1>>]
      [] OTHER -> [i |-> <<<<1, 2>>, <<2, 3>>>>, o |-> <<1, 3>>]
MatOk(o, a, b) ==
    CASE o = "dot" -> Len(a) = 1 /\ Len(b) = 1 /\ a = b
      [] o = "bmm" -> Len(a) = 3 /\ Len(b) = 3 /\ a[1] = b[1] /\ a[3] = b[2]
      [] OTHER -> \/ Len(a) = 1 /\ Len(b) = 1 /\ a = b
                  \/ Len(a) = 2 /\ Len(b) = 1 /\ a[2] = b[1]
                  \/ Len(a) = 2 /\ Len(b) = 2 /\ a[2] = b[1]

\* ------------------------------------------------------- gradient of one node
\* gradients, one per input, of a node n whose result has gradient g
Contrib(n, g) ==
    CASE n.k \in {"id", "reshape"} -> <<g>>
      [] n.k = "transpose" -> <<Pick(g, VTranspose(n.sh, n.a, n.b).g)>>
      [] n.k = "neg" -> <<MapQ(NegP, g)>>
      [] n.k = "scale" -> <<MapQ(LAMBDA x : MulP(x, n.c), g)>>
      [] n.k = "+" -> <<Shrink(g, n.sh, n.sa), Shrink(g, n.sh, n.sb)>>
      [] n.k = "-" -> <<Shrink(g, n.sh, n.sa), Shrink(MapQ(NegP, g), n.sh, n.sb)>>
      [] n.k = "*" -> <<Shrink(ZipQ(MulP, g, Stretch(n.qb, n.sb, n.sh)), n.sh, n.sa),
                        Shrink(ZipQ(MulP, g, Stretch(n.qa, n.sa, n.sh)), n.sh, n.sb)>>
      [] n.k = "/" -> LET A == Stretch(n.qa, n.sa, n.sh)
                          B == Stretch(n.qb, n.sb, n.sh)
                          G == ZipQ(DivP, g, B)
                      IN <<Shrink(G, n.sh, n.sa),
                           Shrink(MapQ(NegP, ZipQ(MulP, ZipQ(DivP, G, B), A)), n.sh, n.sb)>>
      [] n.k = "ein" -> LET L == MatLab(n.o, n.sa, n.sb) IN
                        <<EinEls(<<n.sh, n.sb>>, <<g, n.qb>>, <<L.o, L.i[2]>>, L.i[1]),
                          EinEls(<<n.sh, n.sa>>, <<g, n.qa>>, <<L.o, L.i[1]>>, L.i[2])>>

\* reverse pass: pend maps nodes to the gradients that have reached them
RECURSIVE Prop(_, _, _)
Prop(node, pend, id) ==
    IF id = 0 THEN pend
    ELSE IF id \notin DOMAIN pend \/ node[id].k = "acc" THEN Prop(node, pend, id - 1)
    ELSE LET n == node[id]
             cs == Contrib(n, pend[id])
             p2 == FoldLeft(LAMBDA p, i :
                     IF n.in[i] = 0 THEN p
                     ELSE IF n.in[i] \in DOMAIN p THEN [p EXCEPT ![n.in[i]] = ZipQ(AddP, @, cs[i])]
                     ELSE (n.in[i] :> cs[i]) @@ p, pend, Range1(Len(n.in)))
         IN Prop(node, TLCEval(p2), id - 1)
\* what back-propagating g from node id adds to the accumulators
Back(node, id, g) ==
    IF id = 0 THEN [x \in {} |-> <<>>]
    ELSE LET p == Prop(node, id :> g, id)
         IN [x \in {y \in DOMAIN p : node[y].k = "acc"} |-> p[x]]
\* NF: an element that is not a finite number, and stays so until it is cleared
NF == -1
AddN(a, b) == IF a = NF THEN NF ELSE AddP(a, b)
AddAcc(acc, d) == TLCEval([x \in DOMAIN acc |-> IF x \in DOMAIN d THEN ZipQ(AddN, acc[x], d[x]) ELSE acc[x]])

\* -------------------------------------------------------------- transitions
\* [st, ten, node, acc, q]: outcome and next state
G0(ten, node, acc) == [st |-> "ok", ten |-> ten, node |-> node, acc |-> acc, q |-> <<>>, b |-> FALSE]
GPanic(ten, node, acc, e) ==
    [G0([x \in DOMAIN ten \ ToSet(e.c) |-> ten[x]], node, acc) EXCEPT !.st = "panic"]
NewT(sh, q, rg, user, nd) == [k |-> "t", sh |-> sh, q |-> q, rg |-> rg, user |-> user, nd |-> nd, u |-> TRUE]
NewA(sh, q) == [k |-> "a", sh |-> sh, q |-> q, rg |-> FALSE, user |-> TRUE, nd |-> 0, u |-> TRUE]
\* tensor computed from others: requires gradients iff one of them does
Make(ten, node, acc, e, sh, q, n) ==
    LET rg == \E i \in DOMAIN e.s : ten[e.s[i]].rg
        t == NewT(sh, q, rg, FALSE, IF rg THEN Len(node) + 1 ELSE 0)
        n2 == [n EXCEPT !.in = [i \in DOMAIN e.s |-> ten[e.s[i]].nd]]
    IN G0((e.d :> t) @@ [x \in DOMAIN ten \ ToSet(e.c) |-> ten[x]],
          IF rg THEN Append(node, n2) ELSE node, acc)
\* views: gather vw of the source
MakeV(ten, node, acc, e, vw, n) ==
    IF vw.st = "panic" THEN GPanic(ten, node, acc, e)
    ELSE Make(ten, node, acc, e, vw.sh, Pick(ten[e.s[1]].q, vw.g), [n EXCEPT !.sh = vw.sh])
N0 == [k |-> "id", in |-> <<>>, sh |-> <<>>]

GStep(ten, node, acc, e) ==
    LET o == e.op
        A == ten[e.s[1]]
        B == ten[e.s[2]]
    IN
    CASE o = "tnew" -> G0((e.d :> NewT(e.n, e.v, FALSE, TRUE, 0)) @@ ten, node, acc)
      [] o = "trg" ->
            IF e.n[1] = 1 /\ ~A.rg
            THEN LET id == Len(node) + 1 IN
                 G0([ten EXCEPT ![e.s[1]] = [A EXCEPT !.rg = TRUE, !.nd = id]],
                    Append(node, [N0 EXCEPT !.k = "acc", !.sh = A.sh]), (id :> ZeroQ(Len(A.q))) @@ acc)
            ELSE IF e.n[1] = 0
            THEN G0([ten EXCEPT ![e.s[1]] = [A EXCEPT !.rg = FALSE, !.nd = 0]], node, acc)
            ELSE G0(ten, node, acc)
      [] o = "tneg" -> Make(ten, node, acc, e, A.sh, MapQ(NegP, A.q), [N0 EXCEPT !.k = "neg", !.sh = A.sh])
      [] o = "tbin" ->
            IF Len(e.s) = 1
            THEN LET c == e.v[1]
                     f(x) == CASE e.t[1] = "+" -> AddP(x, c) [] e.t[1] = "-" -> SubP(x, c)
                               [] e.t[1] = "*" -> MulP(x, c) [] OTHER -> DivP(x, c)
                     k == CASE e.t[1] \in {"+", "-"} -> 1 [] e.t[1] = "*" -> c [] OTHER -> InvP(c)
                 IN Make(ten, node, acc, e, A.sh, MapQ(f, A.q), [k |-> "scale", in |-> <<>>, sh |-> A.sh, c |-> k])
            ELSE IF ~BcOk(A.sh, B.sh) THEN GPanic(ten, node, acc, e)
            ELSE LET sh == BcShape(A.sh, B.sh)
                     x == Stretch(A.q, A.sh, sh)  y == Stretch(B.q, B.sh, sh)
                     q == CASE e.t[1] = "+" -> ZipQ(AddP, x, y) [] e.t[1] = "-" -> ZipQ(SubP, x, y)
                            [] e.t[1] = "*" -> ZipQ(MulP, x, y) [] OTHER -> ZipQ(DivP, x, y)
                 IN Make(ten, node, acc, e, sh, q,
                         [k |-> e.t[1], in |-> <<>>, sh |-> sh, sa |-> A.sh, sb |-> B.sh, qa |-> A.q, qb |-> B.q])
      [] o = "tmat" ->
            IF ~MatOk(e.t[1], A.sh, B.sh) THEN GPanic(ten, node, acc, e)
            ELSE LET L == MatLab(e.t[1], A.sh, B.sh)
                     sh == EinShape(<<A.sh, B.sh>>, L.i, L.o)
                 IN Make(ten, node, acc, e, sh, EinEls(<<A.sh, B.sh>>, <<A.q, B.q>>, L.i, L.o),
                         [k |-> "ein", in |-> <<>>, sh |-> sh, o |-> e.t[1], sa |-> A.sh, sb |-> B.sh, qa |-> A.q, qb |-> B.q])
      [] o = "tview" ->
            LET w == e.t[1]
                R == [N0 EXCEPT !.k = "reshape"]
                Tr(a, b) == MakeV(ten, node, acc, e, VTranspose(A.sh, a, b), [k |-> "transpose", in |-> <<>>, sh |-> <<>>, a |-> a, b |-> b])
            IN CASE w = "view" -> MakeV(ten, node, acc, e, VView(A.sh), N0)
                 [] w = "reshape" -> LET x == MakeV(ten, node, acc, e, VReshape(A.sh, e.n), R) IN
                                     IF x.st = "panic" \/ A.u \/ e.n = A.sh THEN x ELSE [x EXCEPT !.st = "any"]
                 [] w = "squeeze" -> MakeV(ten, node, acc, e, VSqueeze(A.sh), R)
                 [] w = "unsqueeze" -> MakeV(ten, node, acc, e, VUnsqueeze(A.sh, e.n[1]), R)
                 [] w = "T" -> Tr(0, 1)
                 [] OTHER -> Tr(e.n[1], e.n[2])
      [] o = "tback" /\ e.f = "N" ->
            \* infinities and NaN: the accumulators reached hold no number any more
            IF e.n # A.sh THEN GPanic(ten, node, acc, e)
            ELSE LET d == DOMAIN Back(node, A.nd, ZeroQ(Len(A.q)))
                 IN G0(ten, node, [x \in DOMAIN acc |-> IF x \in d THEN Rep(Len(acc[x]), NF) ELSE acc[x]])
      [] o = "tback" ->
            LET g == CASE e.f = "1" -> [sh |-> A.sh, q |-> [k \in DOMAIN A.q |-> 1]]
                       [] e.f = "G" -> [sh |-> B.sh, q |-> acc[B.nd]]
                       [] OTHER -> [sh |-> e.n, q |-> e.v]
            IN IF g.sh # A.sh THEN GPanic(ten, node, acc, e)
               ELSE G0(ten, node, AddAcc(acc, Back(node, A.nd, g.q)))
      [] o = "tzero" -> G0(ten, node, IF A.nd \in DOMAIN acc THEN [acc EXCEPT ![A.nd] = ZeroQ(Len(@))] ELSE acc)
      [] o = "tdrop" -> G0([x \in DOMAIN ten \ {e.s[1]} |-> ten[x]], node, acc)
      [] o = "tval" -> IF Len(A.q) = 1 THEN [G0(ten, node, acc) EXCEPT !.q = A.q] ELSE GPanic(ten, node, acc, e)
      [] o = "tdbg" -> [G0(ten, node, acc) EXCEPT !.q = DebugToks(A.sh, A.q)]
      [] o \in {"tdet", "tget", "tinto"} ->
            G0((e.d :> NewA(A.sh, A.q)) @@ [x \in DOMAIN ten \ ToSet(e.c) |-> ten[x]], node, acc)
      [] o = "tafill" -> G0([ten EXCEPT ![e.s[1]] = [A EXCEPT !.q = Rep(Len(A.q), e.v[1])]], node, acc)
      [] o = "teq" -> [G0(ten, node, acc) EXCEPT !.b = A.sh = B.sh /\ A.q = B.q]

\* ------------------------------------------------------- what is observable
HasGrad(node, t) == t.k = "t" /\ t.nd # 0 /\ node[t.nd].k = "acc"
IsLeaf(t) == ~t.rg \/ t.user
=============================================================================
