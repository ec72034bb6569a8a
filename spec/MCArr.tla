-------------------------------- MODULE MCArr --------------------------------
(***************************************************************************)
(* Bounded models of the array machine.  MODE selects a family of          *)
(* programs: chains of view operations followed by probes (every call of   *)
(* interest on the array reached), or enumerated programs (pairs of        *)
(* shapes, subscripts, nestings, ...).  TLC executes all of them on the    *)
(* specification, checks its invariants and laws in every state, and       *)
(* prints each complete program, which is then replayed on the library.    *)
(*                                                                         *)
(* MODE, DEPTH (chain length), MOD/SEED (keep one in MOD longest chains)   *)
(***************************************************************************)
EXTENDS Machine, Json, IOUtils

MODE == IOEnv.MODE
DEPTH == atoi(IOEnv.DEPTH)
MOD == atoi(IOEnv.MOD)
SEED == atoi(IOEnv.SEED)

VARIABLES hist, todo, dep, path, cur, arr, heap, par, nb
vars == <<hist, todo, dep, path, cur, arr, heap, par, nb>>

\* ------------------------------------------------------------------- values
Distinct(k) == k % 101
Small(k) == ResP(((k * k * 3 + k) % 7) - 3)
Unit(k) == LET u == <<1, -1, 2, 1, -2, 1, 1>> IN ResP(u[(k % 7) + 1])
Val(k) == IF MODE \in {"einsum", "mat", "binop", "bcast", "write"} THEN Small(k) ELSE IF MODE = "reduce" THEN Unit(k) ELSE Distinct(k)
Class == IF MODE \in {"einsum", "mat", "reduce", "binop"} THEN "mul" ELSE IF MODE \in {"bcast", "write"} THEN "sum" ELSE "read"

RECURSIVE NestOf(_, _)
NestOf(sh, k) == IF Len(sh) = 1 THEN [i \in 1..sh[1] |-> Val(k + i)]
                 ELSE LET m == Size(Tail(sh)) IN [i \in 1..sh[1] |-> NestOf(Tail(sh), k + (i - 1) * m)]
VStr(d) == <<"V", "VV", "VVV", "VVVV", "VVVVV", "VVVVVV">>[d]
NewCmd(sh, d, k) == IF sh = <<>> THEN [C0 EXCEPT !.op = "full", !.d = d, !.v = <<Val(k + 1)>>, !.f = "full"]
                    ELSE [C0 EXCEPT !.op = "new", !.d = d, !.n = <<Len(sh)>>, !.f = VStr(Len(sh)), !.x = NestOf(sh, k)]
V1(op, s, d, n) == [C0 EXCEPT !.op = op, !.s = <<s>>, !.d = d, !.n = n, !.f = "r"]
Call(op, s, n, f, t) == [C0 EXCEPT !.op = op, !.s = s, !.n = n, !.f = f, !.t = t]

\* an array of shape sh in memory layout lay; the result is in slot d + 1
Lay(sh, lay, d, k) ==
    LET nd == Len(sh)
        plain == <<NewCmd(sh, d, k), V1("view", d, d + 1, <<>>)>>
    IN CASE lay = 1 /\ nd >= 2 -> <<NewCmd(Swap(sh, 1, nd), d, k), V1("transpose", d, d + 1, <<0, nd - 1>>)>>
         [] lay = 2 /\ nd >= 1 -> <<NewCmd([i \in 1..nd |-> sh[i] + 1], d, k),
                                    V1("slice", d, d + 1, FlattenSeq([i \in 1..nd |-> <<2, 1, 0>>]))>>
         [] lay = 3 -> <<NewCmd(Append(sh, 2), d, k), V1("slice_along", d, d + 1, <<-1, 0, 1, 0>>)>>
         [] lay = 4 /\ nd >= 1 -> <<NewCmd(<<1>> \o Tail(sh), d, k), V1("broadcast_to", d, d + 1, sh)>>
         [] lay = 5 /\ nd >= 1 -> <<NewCmd(Take(sh, nd - 1) \o <<sh[nd] + 1, sh[nd]>>, d, k),
                                    [V1("diag", d, d + 1, <<-1, nd - 1, nd>>) EXCEPT !.t = <<"f">>]>>
         [] OTHER -> plain

\* ----------------------------------------------------- view calls on a shape
Splits(n) == SelectSeq(<<<<n>>, <<1, n>>, <<2, n \div 2>>, <<n \div 2, 2>>, <<3, n \div 3>>, <<2, 2, n \div 4>>>>, LAMBDA s : Size(s) = n)
Good(sh) ==
    LET nd == Len(sh)
        Ax == [i \in 1..nd |-> i - 1]
        big == SelectSeq(Ax, LAMBDA a : sh[a + 1] > 1)
        pairs == FlattenSeq([i \in 1..nd |-> [j \in 1..(nd - i) |-> <<i - 1, i + j - 1>>]])
        sq == SelectSeq(pairs, LAMBDA p : sh[p[1] + 1] = sh[p[2] + 1])
    IN <<V1("view", 0, 0, <<>>), V1("squeeze", 0, 0, <<>>)>>
       \o [i \in 1..Len(Splits(Size(sh))) |-> [V1("reshape", 0, 0, Splits(Size(sh))[i]) EXCEPT !.t = <<IF i = 1 THEN "arr" ELSE "vec">>]]
       \o <<V1("reshape", 0, 0, Rev(sh)), V1("reshape", 0, 0, Append(sh, 1))>>
       \o [i \in 1..(nd + 1) |-> V1("unsqueeze", 0, 0, <<i - 1>>)] \o <<V1("unsqueeze", 0, 0, <<-1>>)>>
       \o (IF nd >= 2 THEN <<V1("T", 0, 0, <<>>), V1("transpose", 0, 0, <<-1, 0>>)>> ELSE <<>>)
       \o [i \in 1..Len(pairs) |-> [V1("transpose", 0, 0, pairs[i]) EXCEPT !.t = IF i % 2 = 0 THEN <<"axis">> ELSE <<>>]]
       \o FlattenSeq([i \in 1..nd |->
              <<V1("slice_along", 0, 0, <<i - 1, 0, sh[i] - 1, 0>>), V1("slice_along", 0, 0, <<i - 1 - nd, 0, 0, 0>>)>>
              \o (IF sh[i] > 1 THEN <<V1("slice_along", 0, 0, <<i - 1, 1, 1, sh[i]>>), V1("slice_along", 0, 0, <<i - 1, 5, 0, sh[i] - 1>>),
                                      V1("slice_along", 0, 0, <<i - 1 - nd, 4, 1, sh[i] - 1>>)>> ELSE <<>>)])
       \o (IF nd >= 1 THEN <<V1("slice", 0, 0, <<0, sh[1] - 1, 0>>), V1("slice", 0, 0, <<2, sh[1] - 1, 0>>),
                             V1("slice", 0, 0, FlattenSeq([i \in 1..nd |-> IF i = nd THEN <<0, sh[i] - 1, 0>> ELSE <<3, 0, 0>>])),
                             V1("slice", 0, 0, FlattenSeq([i \in 1..nd |-> IF i % 2 = 1 THEN <<5, 0, (sh[i] + 1) \div 2>> ELSE <<2, sh[i] \div 2, 0>>]))>> ELSE <<>>)
       \o FlattenSeq([i \in 1..Len(pairs) |->
              LET p == pairs[i] IN
              <<[V1("diag", 0, 0, <<0, p[1], p[2]>>) EXCEPT !.t = <<IF i = 1 THEN "p" ELSE "a">>]>>
              \o (IF sh[p[2] + 1] > 1 THEN <<[V1("diag", 0, 0, <<1, p[1] - nd, p[2]>>) EXCEPT !.t = <<"f">>]>> ELSE <<>>)
              \o (IF sh[p[1] + 1] > 1 THEN <<[V1("diag", 0, 0, <<-1, p[1], p[2]>>) EXCEPT !.t = <<"f">>]>> ELSE <<>>)
              \o (IF sh[p[1] + 1] > 1 THEN <<[V1("diag", 0, 0, <<1, p[2], p[1]>>) EXCEPT !.t = <<"f">>]>> ELSE <<>>)])
       \o <<V1("broadcast_to", 0, 0, <<2>> \o sh)>>
       \o (IF \E i \in 1..nd : sh[i] = 1 THEN <<V1("broadcast_to", 0, 0, [i \in 1..nd |-> IF sh[i] = 1 THEN 3 ELSE sh[i]])>> ELSE <<>>)
       \o (IF nd >= 1 THEN <<[V1("einsum_view", 0, 0, <<>>) EXCEPT !.lab = <<Range1(nd)>>, !.lo = Rev(Range1(nd))]>> ELSE <<>>)
       \o [i \in 1..Len(sq) |->
              LET l == [k \in 1..nd |-> IF k = sq[i][2] + 1 THEN sq[i][1] + 1 ELSE k]
              IN [V1("einsum_view", 0, 0, <<>>) EXCEPT !.lab = <<l>>, !.lo = SelectSeq(Range1(nd), LAMBDA k : k # sq[i][2] + 1)]]
Consumable(e) == e.op \in {"view", "reshape", "squeeze", "unsqueeze", "T", "transpose"}
OnSlot(e, s, d) == [e EXCEPT !.s = <<s>>, !.d = d]
Consuming(e) == [e EXCEPT !.f = "c", !.c = e.s]

\* calls outside the domain
Wrong(sh) ==
    LET nd == Len(sh)  n == Size(sh) IN
    <<V1("reshape", 0, 0, <<n + 1>>), V1("reshape", 0, 0, Append(sh, 2)), V1("reshape", 0, 0, <<0>>), V1("unsqueeze", 0, 0, <<nd + 1>>), V1("unsqueeze", 0, 0, <<-nd - 2>>),
      V1("transpose", 0, 0, <<0, nd>>), V1("transpose", 0, 0, <<-nd - 1, 0>>),
      V1("slice_along", 0, 0, <<nd, 3, 0, 0>>), V1("slice_along", 0, 0, <<-nd - 1, 3, 0, 0>>),
      V1("slice", 0, 0, FlattenSeq([i \in 1..(nd + 1) |-> <<3, 0, 0>>])),
      [V1("diag", 0, 0, <<0, 0, 0>>) EXCEPT !.t = <<"f">>], [V1("diag", 0, 0, <<0, 0, nd>>) EXCEPT !.t = <<"a">>]>>
    \o (IF nd < 2 THEN <<V1("T", 0, 0, <<>>), [V1("diag", 0, 0, <<0, 0, 1>>) EXCEPT !.t = <<"p">>]>> ELSE
        <<[V1("diag", 0, 0, <<sh[2], 0, 1>>) EXCEPT !.t = <<"o">>], [V1("diag", 0, 0, <<-sh[1], 0, 1>>) EXCEPT !.t = <<"o">>],
          [V1("diag", 0, 0, <<0, -1, nd - 1>>) EXCEPT !.t = <<"a">>]>>)
    \o FlattenSeq([i \in 1..nd |->
         <<V1("slice_along", 0, 0, <<i - 1, 0, sh[i], 0>>), V1("slice_along", 0, 0, <<i - 1, 1, 0, sh[i] + 1>>),
           V1("slice_along", 0, 0, <<i - 1, 4, 0, sh[i]>>), V1("slice_along", 0, 0, <<i - 1, 2, sh[i] + 1, 0>>), V1("slice_along", 0, 0, <<i - 1, 1, 2, 1>>),
           V1("slice", 0, 0, Append(FlattenSeq([j \in 1..(i - 1) |-> <<3, 0, 0>>]), 6) \o <<0, sh[i]>>),
           V1("broadcast_to", 0, 0, [sh EXCEPT ![i] = @ + 1 + (IF @ = 1 THEN -1 ELSE 0)] \o <<>>),
           Call("getidx", <<0>>, [j \in 1..nd |-> IF j = i THEN sh[j] ELSE 0], "", <<>>),
           [Call("setidx", <<0>>, [j \in 1..nd |-> IF j = i THEN sh[j] ELSE 0], "", <<>>) EXCEPT !.v = <<5>>]>>])
    \o (IF nd >= 1 THEN <<V1("broadcast_to", 0, 0, Tail(sh)), Call("iter", <<0>>, <<0, 0>>, "nd", <<>>)>> ELSE <<>>)
    \o <<Call("getidx", <<0>>, Rep(nd + 1, 0), "", <<>>), Call("iter", <<0>>, <<nd>>, "nd", <<>>), Call("iter", <<0>>, <<nd>>, "along", <<>>), Call("iter", <<0>>, <<-nd - 1>>, "along", <<>>),
         Call("reduce", <<0>>, <<nd>>, "v", <<"sum">>), Call("reduce", <<0>>, <<-nd - 1>>, "v", <<"max">>),
         [Call("assign", <<0>>, <<>>, "", <<"+">>) EXCEPT !.s = <<0, -1>>],
         Call("trace", <<0>>, <<0, 0, nd>>, "f", <<>>)>>
    \o (IF nd >= 1 THEN <<Call("reduce", <<0>>, <<0, -nd>>, "v", <<"sum">>)>> ELSE <<>>)
    \o (IF n # 1 THEN <<Call("value", <<0>>, <<>>, "", <<>>)>> ELSE <<>>)

RECURSIVE Subsets(_)
Subsets(n) == IF n = 0 THEN <<<<>>>> ELSE LET r == Subsets(n - 1) IN r \o [i \in 1..Len(r) |-> Append(r[i], n - 1)]
Ops7 == <<"sum", "product", "min", "max", "min_magnitude", "max_magnitude">>
Reads(sh) ==
    LET nd == Len(sh)  n == Size(sh) IN
    <<Call("flatiter", <<0>>, <<>>, "", <<>>), Call("debug", <<0>>, <<>>, "", <<>>)>>
    \o (IF nd > 0 THEN <<Call("iter", <<0>>, <<0>>, "plain", <<>>)>> ELSE <<>>)
    \o [i \in 1..(2 * nd) |-> Call("iter", <<0>>, <<i - 1 - nd>>, "along", <<>>)]
    \o [i \in 1..(Len(Subsets(nd)) - 1) |-> Call("iter", <<0>>, Subsets(nd)[i + 1], "nd", <<>>)]
    \o [k \in 1..n |-> Call("getidx", <<0>>, Unravel(k - 1, sh), "", <<>>)]
    \o (IF nd = 1 THEN <<Call("getidx", <<0>>, <<sh[1] - 1>>, "u", <<>>)>> ELSE <<>>)
    \o <<Call("value", <<0>>, <<>>, "", <<>>)>>

\* what is done with the array in slot s once a chain has been built; d is a free slot
Probes(sh, s, d, ro, canConsume) ==
    LET nd == Len(sh)
        at(q) == [i \in DOMAIN q |-> [q[i] EXCEPT !.s = [k \in DOMAIN @ |-> IF @[k] = 0 THEN s ELSE IF @[k] = -1 THEN d ELSE @[k]]]]
        end(e) == IF canConsume THEN <<[e EXCEPT !.s = <<s>>, !.c = <<s>>]>> ELSE <<>>
    IN CASE MODE = "view" -> at(Good(sh)) \o end([V1("view", s, d, <<>>) EXCEPT !.f = "c"])
         [] MODE = "wrong" -> <<NewCmd(IF nd > 4 THEN Rep(nd, 2) ELSE Append([i \in 1..nd |-> sh[i] + 1], 3), d, 0)>> \o at(Wrong(sh)) \o at(<<Call("flatiter", <<0>>, <<>>, "", <<>>)>>)
         [] MODE = "read" -> at(Reads(sh))
         [] MODE = "meta" -> at(<<Call("data_slice", <<0>>, <<>>, "", <<>>), V1("clone", 0, 0, <<>>), V1("flatten", 0, 0, <<>>), V1("clone", 0, d, <<>>),
                                  Call("eq", <<0, -1>>, <<>>, "vv", <<>>), Call("eq", <<-1, 0>>, <<>>, "rr", <<>>)>>)
                             \o end(Call("into_vec", <<0>>, <<>>, "", <<>>))
         [] MODE = "write" ->
               <<NewCmd(sh, d, 7)>> \o (IF nd > 0 THEN <<NewCmd(Tail(sh), d + 1, 3), NewCmd([i \in 1..nd |-> 1], d + 2, 2)>> ELSE <<>>)
               \o at(<<Call("assign", <<0, d>>, <<>>, "", <<"+">>), [Call("assign", <<0>>, <<>>, "", <<"-">>) EXCEPT !.v = <<2>>]>>)
               \o (IF nd > 0 THEN at(<<Call("assign", <<0, d + 1>>, <<>>, "", <<"-">>), [Call("assign", <<0, d + 2>>, <<>>, "", <<"+">>) EXCEPT !.c = <<d + 2>>]>>) ELSE <<>>)
               \o at([k \in 1..Min2(Size(sh), 3) |-> [Call("setidx", <<0>>, Unravel((k * 5) % Size(sh), sh), "", <<>>) EXCEPT !.v = <<k>>]])
               \o at(<<[Call("fill", <<0>>, <<>>, "", <<>>) EXCEPT !.v = <<3>>], [Call("fill", <<0>>, <<>>, "z", <<>>) EXCEPT !.v = <<0>>]>>)
         [] MODE = "reduce" ->
               FlattenSeq([o \in 1..6 |->
                 at(<<Call("reduce", <<0>>, <<>>, "all", <<Ops7[o]>>)>>
                    \o [i \in 1..Len(Subsets(nd)) |-> Call("reduce", <<0>>, Subsets(nd)[i], "v", <<Ops7[o]>>)]
                    \o (IF nd > 0 THEN <<Call("reduce", <<0>>, <<-1>>, "v", <<Ops7[o]>>), Call("reduce", <<0>>, Rev([i \in 1..nd |-> i - 1 - nd]), "v", <<Ops7[o]>>)>> ELSE <<>>))])
         [] OTHER -> <<>>

\* ------------------------------------------------------- enumerated programs
Shapes(maxnd, dims) == FlattenSeq([nd \in 1..(maxnd + 1) |->
    SetToSeq([1..(nd - 1) -> dims])])
Sh3 == Shapes(3, {1, 2, 3})
Sh2 == Shapes(2, {1, 2, 3})
\* two operands against each other: program p fixes the left one
Pair(sa, la, rhs, Body(_, _)) ==
    Lay(sa, la, 1, 0) \o FlattenSeq([i \in 1..Len(rhs) |->
        LET d == 10 * i  lb == (i + la) % 6 IN Lay(rhs[i], lb, d, i) \o Body(d + 1, i) \o
            <<[Call("drop", <<d + 1>>, <<>>, "", <<>>) EXCEPT !.c = <<d + 1>>], [Call("drop", <<d>>, <<>>, "", <<>>) EXCEPT !.c = <<d>>]>>])
BcBody(b, i) == <<Call("binop", <<2, b>>, <<>>, "", <<IF i % 2 = 0 THEN "+" ELSE "-">>), Call("binop", <<b, 2>>, <<>>, "", <<"-">>)>>
BinBody(b, i) == [o \in 1..3 |-> Call("binop", IF o = 2 THEN <<b, 2>> ELSE <<2, b>>, <<>>, "", <<<<"+", "*", "-">>[o]>>)]
MatBody(b, i) == [o \in 1..3 |-> Call("mat", <<2, b>>, <<>>, "", <<<<"dot", "matmul", "bmm">>[o]>>)]
\* every output of distinct labels
RECURSIVE Arr(_)
Arr(S) == {<<>>} \cup UNION {{<<l>> \o r : r \in Arr(S \ {l})} : l \in S}
LDim(l) == <<2, 3, 2, 4>>[l]
LSh(ls) == [k \in DOMAIN ls |-> LDim(ls[k])]
Subs(m) == FlattenSeq([nd \in 1..(m + 1) |-> SetToSeq([1..(nd - 1) -> 1..3])])
EinCalls(lab, ss) ==
    LET outs == SetToSeq(Arr(LabelsOf(lab)))
    IN [i \in 1..Len(outs) |-> [Call("einsum", ss, <<>>, "", <<>>) EXCEPT !.lab = lab, !.lo = outs[i]]]
EinPrograms ==
    LET S1 == Subs(3)
        S2 == SelectSeq(Subs(2), LAMBDA l : l # <<>>)
    IN FlattenSeq([i \in 1..Len(S1) |-> [l \in 1..4 |-> LET la == (i + l) % 6 IN
            Lay(LSh(S1[i]), la, 1, 0) \o EinCalls(<<S1[i]>>, <<2>>)
            \o <<[Call("einsum", <<2>>, <<>>, "", <<>>) EXCEPT !.lab = <<S1[i]>>, !.lo = <<4>>],
                 [Call("einsum", <<2>>, <<>>, "", <<>>) EXCEPT !.lab = <<Append(S1[i], 1)>>, !.lo = <<>>]>>
            \o (IF S1[i] # <<>> THEN <<[Call("einsum", <<2>>, <<>>, "", <<>>) EXCEPT !.lab = <<S1[i]>>, !.lo = <<S1[i][1], S1[i][1]>>],
                                       [Call("einsum", <<2, 2>>, <<>>, "", <<>>) EXCEPT !.lab = <<S1[i]>>, !.lo = <<>>]>> ELSE <<>>)]])
       \o FlattenSeq([i \in 1..Len(S2) |-> [j \in 1..Len(S2) |->
            Lay(LSh(S2[i]), (i + j) % 6, 1, 0) \o Lay(LSh(S2[j]), (i + 2 * j) % 6, 3, 2) \o EinCalls(<<S2[i], S2[j]>>, <<2, 4>>)]])
       \o FlattenSeq([i \in 1..3 |-> [j \in 1..Len(S2) |->
            LET a == <<<<1>>, <<1, 2>>, <<2, 1>>>>[i]  b == <<<<2>>, <<2, 3>>, <<1, 3>>>>[i] IN
            Lay(LSh(a), (i + j) % 6, 1, 0) \o Lay(LSh(b), (i + 2 * j) % 6, 3, 2) \o Lay(LSh(S2[j]), j % 6, 5, 1)
            \o EinCalls(<<a, b, S2[j]>>, <<2, 4, 6>>)]])
TraceCalls(sh) ==
    LET nd == Len(sh) IN
    IF nd < 2 THEN <<Call("trace", <<2>>, <<0, 0, 1>>, "p", <<>>)>>
    ELSE <<Call("trace", <<2>>, <<0, 0, 1>>, "p", <<>>)>>
         \o FlattenSeq([o \in 1..7 |-> <<Call("trace", <<2>>, <<o - 4, 0, 1>>, "o", <<>>), Call("trace", <<2>>, <<o - 4, -1, 0>>, "f", <<>>), Call("trace", <<2>>, <<o - 4, nd - 2, nd - 1>>, "f", <<>>)>>])
         \o <<Call("trace", <<2>>, <<0, 1, 0>>, "a", <<>>), Call("trace", <<2>>, <<0, -2, -1>>, "a", <<>>)>>
\* nested data: every tree of depth k with at most w children, possibly ragged or empty
RECURSIVE Trees(_, _)
Trees(k, w) == IF k = 1 THEN {[i \in 1..n |-> i + 1] : n \in 0..w}
               ELSE UNION {[1..n -> Trees(k - 1, w)] : n \in 0..w}
NestPrograms ==
    LET call(x, k) == [C0 EXCEPT !.op = "new", !.n = <<k>>, !.f = VStr(k), !.x = x, !.d = 0]
        T(k, w) == LET s == SetToSeq(Trees(k, w)) IN [i \in 1..Len(s) |-> <<call(s[i], k)>>]
    IN T(1, 4) \o T(2, 3) \o T(3, 2)
RangePrograms ==
    FlattenSeq([a \in 1..6 |-> FlattenSeq([b \in 1..9 |-> [g \in 1..2 |->
        FlattenSeq([k \in 1..(IF g = 1 THEN 1 ELSE 3) |->
            LET sc == IF g = 1 THEN 1 ELSE <<2, 4, 8>>[k] IN
            [st \in 1..5 |-> [C0 EXCEPT !.op = "arange", !.d = 0, !.n = <<a - 3, b - 3 + (IF g > 1 THEN a - 3 ELSE 0), <<1, 2, 3, -1, -2>>[st], sc>>,
                                         !.v = <<0>>, !.t = <<"0">>, !.f = IF g = 1 /\ st = 1 THEN "one" ELSE ""]]])]])])
LinPrograms ==
    FlattenSeq([a \in 1..4 |-> [b \in 1..4 |->
        FlattenSeq([n \in 1..12 |-> [x \in 1..2 |-> [C0 EXCEPT !.op = "linspace", !.d = 0, !.n = <<(a - 2) * 3, (b - 2) * 5, n - 1, x - 1>>]]])]])
ConstPrograms ==
    LET S == Shapes(3, {0, 1, 2, 3})
    IN [i \in 1..Len(S) |-> FlattenSeq([f \in 1..3 |-> <<[C0 EXCEPT !.op = "full", !.d = 1, !.n = S[i], !.f = <<"full", "zeros", "ones">>[f], !.v = <<<<7, 0, 1>>[f]>>],
                                                         [Call("drop", <<1>>, <<>>, "", <<>>) EXCEPT !.c = <<1>>]>>])]
LayPrograms(S, Calls(_)) == FlattenSeq([i \in 1..Len(S) |-> [l \in 1..6 |-> Lay(S[i], l - 1, 1, 0) \o Calls(S[i])]])
Programs ==
    CASE MODE = "bcast" -> FlattenSeq([i \in 1..Len(Sh3) |-> [l \in 1..(IF DEPTH > 1 THEN 6 ELSE 1) |-> Pair(Sh3[i], (i + l + SEED) % 6, Sh3, BcBody)]])
      [] MODE = "binop" -> FlattenSeq([i \in 1..Len(Sh2) |-> [l \in 1..6 |-> Pair(Sh2[i], l - 1, Sh2, BinBody)]])
      [] MODE = "mat" -> FlattenSeq([i \in 1..Len(Sh3) |-> [l \in 1..(IF DEPTH > 1 THEN 6 ELSE 1) |-> Pair(Sh3[i], (i + l + SEED) % 6, SelectSeq(Sh3, LAMBDA s : Len(s) = Len(Sh3[i]) \/ (Len(s) = 1 /\ Len(Sh3[i]) < 3)), MatBody)]])
                         \o LayPrograms(Sh3, TraceCalls)
      [] MODE = "einsum" -> EinPrograms
      [] MODE = "nest" -> NestPrograms \o ConstPrograms
      [] MODE = "range" -> RangePrograms \o LinPrograms
      [] OTHER -> <<>>
RangeClass == MODE = "range"

\* ---------------------------------------------------------------- behaviours
Chains == MODE \in {"view", "read", "meta", "write", "reduce", "wrong"}
Bases == IF MODE = "reduce" THEN <<<<>>, <<3>>, <<2, 3>>, <<3, 1>>, <<2, 2, 2>>, <<2, 1, 3>>>>
         ELSE <<<<>>, <<1>>, <<4>>, <<2, 3>>, <<3, 3>>, <<1, 3>>, <<3, 1>>, <<2, 2, 3>>, <<2, 1, 3>>, <<1, 2, 1, 2>>>>
Hash(p) == FoldLeft(LAMBDA a, i : (a * 31 + i) % 10007, SEED, p)
Keep(p) == Len(p) - 1 < DEPTH \/ Hash(p) % MOD = 0

Init ==
    /\ hist = <<>> /\ arr = Nothing /\ heap = Nothing /\ par = Nothing /\ nb = 0
    /\ IF Chains
       THEN \E i \in DOMAIN Bases : path = <<i>> /\ dep = 0 /\ cur = 1 /\ todo = <<NewCmd(Bases[i], 1, 0)>>
       ELSE \E i \in DOMAIN Programs : path = <<i>> /\ Hash(path) % MOD = 0 /\ dep = 99 /\ cur = 0 /\ todo = Programs[i]

Out(h) == PrintT("PROG " \o ToJson([k |-> IF RangeClass THEN (IF \E i \in DOMAIN h : h[i].op = "arange" /\ h[i].n[4] > 1 THEN "float" ELSE IF \E i \in DOMAIN h : h[i].op = "linspace" THEN "float" ELSE "sum") ELSE Class, cmds |-> h]))

Run ==
    /\ todo # <<>>
    /\ LET e == Head(todo)
           alive == ToSet(e.s) \subseteq DOMAIN arr
           x == TLCEval(Exp(H0, arr, heap, e))
           y == TLCEval(MStep(arr, heap, par, nb, e, x))
       IN IF ~alive THEN /\ todo' = Tail(todo) /\ UNCHANGED <<hist, arr, heap, par, nb>>
          ELSE /\ Assert(FrameOk(arr, heap, e, x), <<"frame", e>>)
               /\ Assert(LawOk(arr, heap, e, x), <<"law", e, x>>)
               /\ hist' = Append(hist, e)
               /\ todo' = Tail(todo)
               /\ arr' = y.arr /\ heap' = y.heap /\ par' = y.par /\ nb' = y.nb
    /\ UNCHANGED <<dep, path, cur>>

Extend ==
    /\ todo = <<>> /\ dep < DEPTH /\ cur \in DOMAIN arr
    /\ LET g == TLCEval(Good(arr[cur].sh)) IN
       \E i \in DOMAIN g : \E c \in {0, 1} :
          /\ c = 1 => Consumable(g[i])
          /\ path' = Append(path, 2 * i + c)
          /\ Keep(path')
          /\ LET e == OnSlot(g[i], cur, cur + 1)
                 x == TLCEval(Exp(H0, arr, heap, e))
             IN /\ x.st \in {"ok", "any"} /\ Size(x.sh) <= 40 /\ x.k = "view"
                /\ todo' = <<IF c = 1 THEN Consuming(e) ELSE e>>
    /\ dep' = dep + 1 /\ cur' = cur + 1
    /\ UNCHANGED <<hist, arr, heap, par, nb>>

Probe ==
    /\ Chains /\ todo = <<>> /\ dep <= DEPTH /\ cur \in DOMAIN arr
    /\ todo' = TLCEval(Probes(arr[cur].sh, cur, cur + 10, arr[cur].ro, TRUE))
    /\ dep' = 99
    /\ UNCHANGED <<hist, path, cur, arr, heap, par, nb>>

Finish == todo = <<>> /\ dep = 99 /\ Out(hist) /\ dep' = 100 /\ UNCHANGED <<hist, todo, path, cur, arr, heap, par, nb>>

Next == Run \/ Extend \/ Probe \/ Finish
Spec == Init /\ [][Next]_vars

Inv == /\ CellsInBounds(arr, heap) /\ OneOwner(arr, heap) /\ Borrowed(arr, par) /\ WritableDistinct(arr)
=============================================================================
