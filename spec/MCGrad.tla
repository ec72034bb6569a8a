-------------------------------- MODULE MCGrad -------------------------------
(***************************************************************************)
(* Bounded models of the tensor machine.                                   *)
(*                                                                         *)
(*  MODE = "graph": every computation of up to DEPTH operations over two   *)
(*     leaves (all choices of shapes, operations, operands, operands given *)
(*     by reference or by value), back-propagated with several gradients;  *)
(*  MODE = "life": every history of up to DEPTH calls that mark, clear,    *)
(*     derive, back-propagate, extract, overwrite and drop.                *)
(*  MODE = "refuse": computations followed by calls outside the domain.    *)
(*                                                                         *)
(* In every state the machine's invariants are checked, and each reverse   *)
(* pass is compared with the directional derivatives computed forwards     *)
(* (dual numbers).  Complete programs are printed and replayed.            *)
(***************************************************************************)
EXTENDS Grad, Json, IOUtils

MODE == IOEnv.MODE
DEPTH == atoi(IOEnv.DEPTH)
MOD == atoi(IOEnv.MOD)
SEED == atoi(IOEnv.SEED)

VARIABLES hist, todo, dep, path, ten, node, acc, par
vars == <<hist, todo, dep, path, ten, node, acc, par>>
C0 == [op |-> "", s |-> <<>>, c |-> <<>>, d |-> 0, n |-> <<>>, f |-> "", v |-> <<>>, t |-> <<>>]
Nothing == [x \in {} |-> 0]

\* ------------------------------------------------------- forward derivatives
Inv2 == InvP(2)
Push(n, ta, tb) ==
    CASE n.k \in {"id", "reshape"} -> ta
      [] n.k = "neg" -> MapQ(NegP, ta)
      [] n.k = "scale" -> MapQ(LAMBDA x : MulP(x, n.c), ta)
      [] n.k \in {"+", "-", "*", "/"} ->
           LET x == Stretch(ta, n.sa, n.sh)  y == Stretch(tb, n.sb, n.sh)
               a == Stretch(n.qa, n.sa, n.sh)  b == Stretch(n.qb, n.sb, n.sh)
           IN TLCEval([k \in 1..Len(x) |->
                CASE n.k = "+" -> AddP(x[k], y[k])
                  [] n.k = "-" -> SubP(x[k], y[k])
                  [] n.k = "*" -> AddP(MulP(x[k], b[k]), MulP(a[k], y[k]))
                  [] OTHER -> DivP(SubP(MulP(x[k], b[k]), MulP(a[k], y[k])), MulP(b[k], b[k]))])
      [] n.k = "ein" -> LET L == MatLab(n.o, n.sa, n.sb) IN
           ZipQ(AddP, EinEls(<<n.sa, n.sb>>, <<ta, n.qb>>, L.i, L.o), EinEls(<<n.sa, n.sb>>, <<n.qa, tb>>, L.i, L.o))
InSize(n, i) == CASE n.k \in {"+", "-", "*", "/", "ein"} -> Size(IF i = 1 THEN n.sa ELSE n.sb) [] OTHER -> Size(n.sh)
InSh(n) == LET v == VTranspose(n.sh, n.a, n.b) IN v.sh
\* derivatives of every node up to id in the direction of element k of accumulator x
Tangents(x, k, id) ==
    FoldLeft(LAMBDA T, j :
        LET n == node[j]
            ti(i) == IF n.in[i] = 0 THEN ZeroQ(InSize(n, i)) ELSE T[n.in[i]]
        IN Append(T, IF n.k = "acc" THEN [ZeroQ(Size(n.sh)) EXCEPT ![IF j = x THEN k ELSE 1] = IF j = x THEN 1 ELSE 0]
                     ELSE IF n.k = "transpose" THEN Pick(ti(1), VTranspose(InSh(n), n.a, n.b).g)
                     ELSE Push(n, ti(1), IF Len(n.in) = 2 THEN ti(2) ELSE <<>>)),
        <<>>, Range1(id))
Dot(a, b) == FoldLeft(LAMBDA s, k : AddP(s, MulP(a[k], b[k])), 0, Range1(Len(a)))
ReverseIsForward(id, g) ==
    id # 0 => LET B == Back(node, id, g) IN
       \A x \in {y \in 1..id : node[y].k = "acc"} : \A k \in 1..Size(node[x].sh) :
          LET T == Tangents(x, k, id)
          IN Dot(g, T[id]) = IF x \in DOMAIN B THEN B[x][k] ELSE 0

\* ------------------------------------------------------------------ the calls
Lv(n, k) == [i \in 1..n |-> ResP(<<2, -1, 3, 1, -2, 4, -3>>[((i * 3 + k) % 7) + 1])]
Pw(n) == [i \in 1..n |-> <<2, P - 1, Inv2, 4, 1, P - 2>>[(i % 6) + 1]]
NewA_(d, sh) == [C0 EXCEPT !.op = "tnew", !.d = d, !.n = sh, !.v = Lv(Size(sh), d), !.f = "new"]
NewB_(d, sh) == [C0 EXCEPT !.op = "tnew", !.d = d, !.n = sh, !.v = Pw(Size(sh)), !.f = "new", !.t = <<"p2">>]
Mark(s, on) == [C0 EXCEPT !.op = "trg", !.s = <<s>>, !.n = <<on>>]
Back1(s) == [C0 EXCEPT !.op = "tback", !.s = <<s>>, !.f = "1"]
BackC(s, f) == [C0 EXCEPT !.op = "tback", !.s = <<s>>, !.f = f, !.n = ten[s].sh, !.v = Lv(Len(ten[s].q), 5)]
Zero(s) == [C0 EXCEPT !.op = "tzero", !.s = <<s>>]
DropT(s) == [C0 EXCEPT !.op = "tdrop", !.s = <<s>>, !.c = <<s>>]
Tens == {s \in DOMAIN ten : ten[s].k = "t"}
Arrs == {s \in DOMAIN ten : ten[s].k = "a"}
Loose(s) == \A x \in DOMAIN par : par[x] # s
Top == IF DOMAIN ten = {} THEN 0 ELSE CHOOSE m \in DOMAIN ten : \A x \in DOMAIN ten : x <= m
\* operations on tensors S giving slot d, as a sequence so that choices can be numbered
Un(a, d) ==
    LET sh == ten[a].sh  nd == Len(sh)
        V(w, n) == [C0 EXCEPT !.op = "tview", !.s = <<a>>, !.d = d, !.t = <<w>>, !.n = n]
    IN <<[C0 EXCEPT !.op = "tneg", !.s = <<a>>, !.d = d],
         [C0 EXCEPT !.op = "tbin", !.s = <<a>>, !.d = d, !.t = <<"*">>, !.v = <<P - 2>>],
         [C0 EXCEPT !.op = "tbin", !.s = <<a>>, !.d = d, !.t = <<"/">>, !.v = <<2>>],
         [C0 EXCEPT !.op = "tbin", !.s = <<a>>, !.d = d, !.t = <<"-">>, !.v = <<3>>],
         [C0 EXCEPT !.op = "tbin", !.s = <<a>>, !.d = d, !.t = <<"+">>, !.v = <<Inv2>>],
         V("reshape", <<Size(sh)>>), V("view", <<>>)>>
       \o (IF nd >= 2 THEN <<V("T", <<>>), V("transpose", <<0, -1>>)>> ELSE <<>>)
       \o (IF nd <= 3 THEN <<V("unsqueeze", <<0>>), V("unsqueeze", <<-1>>)>> ELSE <<>>)
       \o (IF \E i \in 1..nd : sh[i] = 1 THEN <<V("squeeze", <<>>)>> ELSE <<>>)
Bin(a, b, d) ==
    LET B(o) == [C0 EXCEPT !.op = "tbin", !.s = <<a, b>>, !.d = d, !.t = <<o>>]
        M(o) == [C0 EXCEPT !.op = "tmat", !.s = <<a, b>>, !.d = d, !.t = <<o>>]
        x == ten[a].sh  y == ten[b].sh
    IN (IF BcOk(x, y) /\ Size(BcShape(x, y)) <= 16 THEN <<B("+"), B("-"), B("*")>> \o (IF b = 2 THEN <<B("/")>> ELSE <<>>) ELSE <<>>)
       \o (IF MatOk("matmul", x, y) THEN <<M("matmul")>> ELSE <<>>)
       \o (IF MatOk("dot", x, y) THEN <<M("dot")>> ELSE <<>>)
       \o (IF MatOk("bmm", x, y) THEN <<M("bmm")>> ELSE <<>>)
Derive(d) ==
    LET S == SetToSortSeq(Tens, LAMBDA a, b : a > b)
        p == Take(S, Min2(Len(S), 4))
    IN FlattenSeq([i \in DOMAIN p |-> (IF i <= 2 THEN Un(p[i], d) ELSE <<>>)
          \o FlattenSeq([j \in DOMAIN p |-> IF i = 1 \/ j = 1 \/ MODE = "life" THEN Bin(p[i], p[j], d) ELSE <<>>])])
\* operands given by value: what is free and derived
ByValue(e) ==
    LET can(s) == s > 2 /\ Loose(s) /\ Cardinality({i \in DOMAIN e.s : e.s[i] = s}) = 1
        c == SelectSeq(e.s, can)
    IN IF e.op = "tmat" THEN SelectSeq(c, LAMBDA s : s # e.s[1]) ELSE c

LifeCalls(d) ==
    LET S == SetToSortSeq(Tens, LAMBDA a, b : a > b)
        A == SetToSortSeq(Arrs, LAMBDA a, b : a > b)
        E(o, s, c, dd) == [C0 EXCEPT !.op = o, !.s = <<s>>, !.c = c, !.d = dd]
    IN FlattenSeq([i \in DOMAIN S |->
            (IF Loose(S[i]) THEN <<Mark(S[i], IF ten[S[i]].rg THEN 0 ELSE 1)>> ELSE <<>>)
            \o <<Back1(S[i])>> \o (IF ten[S[i]].rg THEN <<Mark(S[i], 1), Zero(S[i]), BackC(S[i], "t")>> ELSE <<>>)
            \o (IF Loose(S[i]) /\ Cardinality(Tens) > 1 THEN <<DropT(S[i]), E("tinto", S[i], <<S[i]>>, d)>> ELSE <<>>)
            \o <<E("tdet", S[i], <<>>, d), E("tget", S[i], <<>>, d)>>
            \o (IF HasGrad(node, ten[S[i]]) THEN FlattenSeq([j \in DOMAIN S |-> IF ten[S[j]].sh = ten[S[i]].sh /\ ten[S[j]].rg
                     THEN <<[C0 EXCEPT !.op = "tback", !.s = <<S[j], S[i]>>, !.f = "G"]>> ELSE <<>>]) ELSE <<>>)])
       \o FlattenSeq([i \in DOMAIN A |-> <<[C0 EXCEPT !.op = "tafill", !.s = <<A[i]>>, !.v = <<5>>], DropT(A[i])>>])
       \o (IF Top < 6 THEN
             LET a == S[1]  b == S[Len(S)]
                 V(w, n) == [C0 EXCEPT !.op = "tview", !.s = <<a>>, !.d = d, !.t = <<w>>, !.n = n]
                 Bi(o, x, y) == [C0 EXCEPT !.op = "tbin", !.s = <<x, y>>, !.d = d, !.t = <<o>>]
             IN <<Bi("*", a, b), [Bi("*", a, b) EXCEPT !.c = IF Loose(a) /\ a # b THEN <<a>> ELSE <<>>],
                  V("view", <<>>), [V("reshape", <<Size(ten[a].sh)>>) EXCEPT !.c = IF Loose(a) THEN <<a>> ELSE <<>>]>>
           ELSE <<>>)

WrongCalls(d) ==
    LET S == SetToSortSeq(Tens, LAMBDA a, b : a > b) IN
    FlattenSeq([i \in DOMAIN S |->
        LET a == S[i]  sh == ten[a].sh  nd == Len(sh)
            V(w, n) == [C0 EXCEPT !.op = "tview", !.s = <<a>>, !.d = d, !.t = <<w>>, !.n = n]
            G(s2) == [C0 EXCEPT !.op = "tback", !.s = <<a>>, !.f = "c", !.n = s2, !.v = Lv(Size(s2), 1)]
        IN <<V("reshape", <<Size(sh) + 1>>), V("unsqueeze", <<nd + 1>>), V("unsqueeze", <<-nd - 2>>), V("transpose", <<0, nd>>), V("transpose", <<-nd - 1, 0>>),
             G(Append(sh, 1)), G(<<1>> \o sh)>>
           \o (IF nd > 0 THEN <<G(Tail(sh)), G([sh EXCEPT ![nd] = @ + 1]), G(Rep(nd, 1))>> ELSE <<G(<<2>>)>>)
           \o (IF nd > 1 THEN <<G(Rev(sh)), G(<<Size(sh)>>)>> ELSE <<V("T", <<>>)>>)
           \o (IF Size(sh) # 1 THEN <<[C0 EXCEPT !.op = "tval", !.s = <<a>>]>> ELSE <<>>)
           \o FlattenSeq([j \in DOMAIN S |->
                 (IF BcOk(sh, ten[S[j]].sh) THEN <<>> ELSE [o \in 1..3 |-> [C0 EXCEPT !.op = "tbin", !.s = <<a, S[j]>>, !.d = d, !.t = <<<<"+", "-", "*">>[o]>>]])
                 \o FlattenSeq([o \in 1..3 |-> LET m == <<"dot", "matmul", "bmm">>[o] IN
                       IF MatOk(m, sh, ten[S[j]].sh) THEN <<>> ELSE <<[C0 EXCEPT !.op = "tmat", !.s = <<a, S[j]>>, !.d = d, !.t = <<m>>]>>])])])

\* ---------------------------------------------------------------- behaviours
Shapes2 == <<<<<<2, 2>>, <<2, 2>>>>, <<<<2, 3>>, <<3>>>>, <<<<3>>, <<3>>>>, <<<<2, 1>>, <<1, 3>>>>, <<<<>>, <<2>>>>, <<<<2>>, <<>>>>,
             <<<<1, 2, 2>>, <<1, 2, 2>>>>, <<<<2, 2, 1>>, <<2, 1>>>>, <<<<1>>, <<2, 2>>>>, <<<<1, 1>>, <<3>>>>>>
ShapesL == <<<<<<2>>, <<2>>>>, <<<<2, 1>>, <<2>>>>, <<<<>>, <<>>>>>>
Pairs == IF MODE = "life" THEN ShapesL ELSE Shapes2
Hash(p) == FoldLeft(LAMBDA a, i : (a * 31 + i) % 10007, SEED, p)
Keep(p) == Len(p) - 1 < DEPTH \/ Hash(p) % MOD = 0

Init ==
    /\ hist = <<>> /\ dep = 0 /\ ten = Nothing /\ node = <<>> /\ acc = Nothing /\ par = Nothing
    /\ \E i \in DOMAIN Pairs : \E m \in 1..3 :
         /\ path = <<10 * i + m>>
         /\ todo = <<NewA_(1, Pairs[i][1]), NewB_(2, Pairs[i][2])>>
                   \o (IF m \in {1, 3} THEN <<Mark(1, 1)>> ELSE <<>>) \o (IF m \in {2, 3} THEN <<Mark(2, 1)>> ELSE <<>>)

\* values of tensors never change; gradients change only by back-propagation, clearing and marking
StepOk(e, x) ==
    /\ \A s \in DOMAIN x.ten \cap DOMAIN ten : s # e.d =>
          /\ ten[s].k = "t" => x.ten[s].q = ten[s].q /\ x.ten[s].sh = ten[s].sh
          /\ ten[s].k = "a" => x.ten[s].q = ten[s].q \/ (e.op = "tafill" /\ s = e.s[1])
          /\ ten[s].rg = x.ten[s].rg \/ (e.op = "trg" /\ s = e.s[1])
    /\ \A n \in DOMAIN acc : n \in DOMAIN x.acc /\ (x.acc[n] = acc[n] \/ e.op = "tback" \/ (e.op = "tzero" /\ ten[e.s[1]].nd = n))
    /\ Take(x.node, Len(node)) = node
    /\ e.op = "tback" /\ x.st = "ok" =>
          ReverseIsForward(ten[e.s[1]].nd, IF e.f = "1" THEN [k \in DOMAIN ten[e.s[1]].q |-> 1] ELSE IF e.f = "G" THEN acc[ten[e.s[2]].nd] ELSE e.v)

Run ==
    /\ todo # <<>>
    /\ LET e == Head(todo)
           alive == ToSet(e.s) \subseteq DOMAIN ten
           x == TLCEval(GStep(ten, node, acc, e))
       IN IF ~alive THEN UNCHANGED <<hist, ten, node, acc, par>>
          ELSE /\ Assert(StepOk(e, x), <<"step", e, x>>)
               /\ hist' = Append(hist, e) /\ ten' = x.ten /\ node' = x.node /\ acc' = x.acc
               /\ par' = LET p0 == [s \in DOMAIN par \ ToSet(e.c) |-> par[s]] IN
                         IF e.d = 0 \/ x.st = "panic" THEN p0
                         ELSE (e.d :> IF e.op = "tview" /\ e.c = <<>> THEN e.s[1] ELSE 0) @@ p0
    /\ todo' = Tail(todo) /\ UNCHANGED <<dep, path>>

Extend ==
    /\ todo = <<>> /\ dep < DEPTH
    /\ LET g == TLCEval(IF MODE = "life" THEN LifeCalls(Top + 1) ELSE Derive(Top + 1)) IN
       \E i \in DOMAIN g : \E c \in {0, 1} :
          /\ c = 1 => MODE # "life" /\ ByValue(g[i]) # <<>>
          /\ path' = Append(path, 2 * i + c)
          /\ Keep(path')
          /\ todo' = <<IF c = 1 THEN [g[i] EXCEPT !.c = ByValue(g[i])] ELSE g[i]>>
    /\ dep' = dep + 1
    /\ UNCHANGED <<hist, ten, node, acc, par>>

\* the end of a program
Ending ==
    /\ todo = <<>> /\ dep <= DEPTH /\ dep > 0
    /\ MODE = "life" => dep = DEPTH
    /\ LET S == SetToSortSeq({s \in Tens : ten[s].rg}, LAMBDA a, b : a > b)
           t == IF S = <<>> THEN 1 ELSE S[1]
       IN todo' = CASE MODE = "refuse" -> WrongCalls(Top + 1) \o <<Back1(t)>>
                    [] MODE = "graph" -> IF S = <<>> THEN <<>> ELSE
                          <<Back1(t), BackC(t, "t"), BackC(t, "s"), Zero(1), BackC(S[Min2(2, Len(S))], "c"), DropT(S[Min2(2, Len(S))]), Back1(t), DropT(1), Back1(t)>>
                    [] OTHER -> [i \in 1..Min2(2, Len(S)) |-> Back1(S[i])]
    /\ dep' = 99
    /\ UNCHANGED <<hist, path, ten, node, acc, par>>

Finish == todo = <<>> /\ dep = 99 /\ PrintT("PROG " \o ToJson([k |-> "ten", cmds |-> hist])) /\ dep' = 100 /\ UNCHANGED <<hist, todo, path, ten, node, acc, par>>
Next == Run \/ Extend \/ Ending \/ Finish
Spec == Init /\ [][Next]_vars

\* ---------------------------------------------------------------- invariants
Inv ==
    /\ \A j \in DOMAIN node : \A i \in DOMAIN node[j].in : node[j].in[i] < j
    /\ \A s \in DOMAIN ten :
         /\ Len(ten[s].q) = Size(ten[s].sh)
         /\ ten[s].rg <=> ten[s].nd # 0
         /\ ten[s].nd # 0 => node[ten[s].nd].sh = ten[s].sh
         /\ ten[s].k = "a" => ~ten[s].rg
    /\ \A n \in DOMAIN acc : node[n].k = "acc" /\ Len(acc[n]) = Size(node[n].sh)
=============================================================================
