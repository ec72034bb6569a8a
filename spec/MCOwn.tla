-------------------------------- MODULE MCOwn --------------------------------
(***************************************************************************)
(* Bounded model of storage ownership: every history of up to DEPTH calls  *)
(* that create, borrow, consume, copy, overwrite, extract and drop arrays, *)
(* including calls that are refused while holding an array by value.       *)
(* Invariants: every buffer has exactly one owner (no leak, no double      *)
(* free), every view's source is alive, cells lie inside the buffer.       *)
(***************************************************************************)
EXTENDS Machine, Json, IOUtils

DEPTH == atoi(IOEnv.DEPTH)
MOD == atoi(IOEnv.MOD)
SEED == atoi(IOEnv.SEED)
VARIABLES hist, done, path, arr, heap, par, nb
vars == <<hist, done, path, arr, heap, par, nb>>

Loose(s) == \A x \in DOMAIN par : par[x] # s
Top == IF DOMAIN arr = {} THEN 0 ELSE CHOOSE m \in DOMAIN arr : \A x \in DOMAIN arr : x <= m
Cmd(op, s, c, d, n) == [C0 EXCEPT !.op = op, !.s = s, !.c = c, !.d = d, !.n = n, !.f = IF c # <<>> THEN "c" ELSE "r"]
NewCmd(sh, d) ==
    IF sh = <<>> THEN [C0 EXCEPT !.op = "full", !.d = d, !.v = <<3>>, !.f = "full"]
    ELSE [C0 EXCEPT !.op = "new", !.d = d, !.n = <<Len(sh)>>, !.f = <<"V", "VV">>[Len(sh)],
             !.x = IF Len(sh) = 1 THEN Range1(sh[1]) ELSE [i \in 1..sh[1] |-> [j \in 1..sh[2] |-> sh[2] * (i - 1) + j]]]

\* every call on slot a (by reference, and by value where it is not borrowed from)
OnOne(a, d) ==
    LET A == arr[a]  sh == A.sh  nd == Len(sh)  n == Size(sh)
        V(op, k) == <<Cmd(op, <<a>>, <<>>, d, k)>> \o (IF Loose(a) THEN <<Cmd(op, <<a>>, <<a>>, d, k)>> ELSE <<>>)
        byval(e) == IF Loose(a) THEN <<[e EXCEPT !.c = <<a>>]>> ELSE <<>>
        T(e, t) == [i \in DOMAIN e |-> [e[i] EXCEPT !.t = <<t>>]]
    IN V("view", <<>>) \o T(V("reshape", <<n>>), "arr") \o T(V("reshape", <<n + 1>>), "vec") \o V("squeeze", <<>>) \o V("unsqueeze", <<0>>)
       \o (IF nd >= 2 THEN V("T", <<>>) \o <<[Cmd("diag", <<a>>, <<>>, d, <<0, 0, 1>>) EXCEPT !.t = <<"p">>]>> ELSE <<>>)
       \o (IF nd >= 1 THEN <<Cmd("slice_along", <<a>>, <<>>, d, <<0, 0, sh[1] - 1, 0>>), Cmd("slice_along", <<a>>, <<>>, d, <<0, 0, sh[1], 0>>),
                             [Cmd("einsum_view", <<a>>, <<>>, d, <<>>) EXCEPT !.lab = <<Range1(nd)>>, !.lo = Rev(Range1(nd))]>> ELSE <<>>)
       \o <<Cmd("clone", <<a>>, <<>>, d, <<>>), Cmd("flatten", <<a>>, <<>>, d, <<>>), Cmd("broadcast_to", <<a>>, <<>>, d, <<2>> \o sh)>>
       \o <<[C0 EXCEPT !.op = "neg", !.s = <<a>>, !.d = d]>> \o byval([C0 EXCEPT !.op = "neg", !.s = <<a>>, !.d = d])
       \o <<[C0 EXCEPT !.op = "binop", !.s = <<a>>, !.d = d, !.t = <<"+">>, !.v = <<1>>]>> \o byval([C0 EXCEPT !.op = "binop", !.s = <<a>>, !.d = d, !.t = <<"*">>, !.v = <<2>>])
       \o byval([C0 EXCEPT !.op = "into_vec", !.s = <<a>>]) \o byval([C0 EXCEPT !.op = "drop", !.s = <<a>>])
       \o (IF Loose(a) /\ ~A.ro THEN <<[C0 EXCEPT !.op = "fill", !.s = <<a>>, !.v = <<4>>], [C0 EXCEPT !.op = "assign", !.s = <<a>>, !.t = <<"+">>, !.v = <<1>>]>> ELSE <<>>)
       \o <<[C0 EXCEPT !.op = "reduce", !.s = <<a>>, !.f = "all", !.t = <<"sum">>, !.d = d]>>
OnTwo(a, b, d) ==
    LET E(o, t, c) == [C0 EXCEPT !.op = o, !.s = <<a, b>>, !.c = c, !.t = <<t>>, !.d = IF o \in {"assign", "eq"} THEN 0 ELSE d]
        c1 == IF Loose(a) THEN <<<<a>>>> ELSE <<>>
        c2 == IF Loose(b) THEN <<<<b>>>> ELSE <<>>
        c3 == IF Loose(a) /\ Loose(b) THEN <<<<a, b>>>> ELSE <<>>
    IN IF a = b THEN <<E("binop", "+", <<>>)>>
       ELSE [i \in 1..Len(<<<<>>>> \o c1 \o c2 \o c3) |-> E("binop", <<"+", "-", "*", "+">>[i], (<<<<>>>> \o c1 \o c2 \o c3)[i])]
            \o (IF Loose(a) /\ ~arr[a].ro /\ arr[a].buf # arr[b].buf
                THEN <<E("assign", "+", <<>>)>> \o [i \in 1..Len(c2) |-> E("assign", "-", c2[i])] ELSE <<>>)
Calls ==
    LET S == SetToSortSeq(DOMAIN arr, LAMBDA a, b : a > b)
        d == Top + 1
    IN (IF Len(S) < 3 THEN <<NewCmd(<<3>>, d), NewCmd(<<2, 2>>, d), NewCmd(<<>>, d)>> ELSE <<>>)
       \o FlattenSeq([i \in DOMAIN S |-> OnOne(S[i], d)])
       \o FlattenSeq([i \in DOMAIN S |-> FlattenSeq([j \in DOMAIN S |-> OnTwo(S[i], S[j], d)])])

Hash(p) == FoldLeft(LAMBDA a, i : (a * 31 + i) % 10007, SEED, p)
Keep(p) == Len(p) < DEPTH \/ Hash(p) % MOD = 0

Init == hist = <<>> /\ done = FALSE /\ path = <<>> /\ arr = Nothing /\ heap = Nothing /\ par = Nothing /\ nb = 0
Step ==
    /\ Len(path) < DEPTH
    /\ LET g == TLCEval(Calls) IN \E i \in DOMAIN g :
       /\ path' = Append(path, i)
       /\ Keep(path')
       /\ LET e == g[i]
              x == TLCEval(Exp(H0, arr, heap, e))
              y == TLCEval(MStep(arr, heap, par, nb, e, x))
          IN /\ x.st \in {"ok", "any", "panic"}
             /\ x.k \in {"view", "fresh"} /\ x.st # "panic" => Size(x.sh) <= 12
             /\ Assert(FrameOk(arr, heap, e, x), <<"frame", e>>)
             /\ hist' = Append(hist, e)
             /\ arr' = y.arr /\ heap' = y.heap /\ par' = y.par /\ nb' = y.nb
    /\ UNCHANGED done
Finish == ~done /\ Len(path) = DEPTH /\ PrintT("PROG " \o ToJson([k |-> "sum", cmds |-> hist])) /\ done' = TRUE /\ UNCHANGED <<hist, path, arr, heap, par, nb>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
Inv == CellsInBounds(arr, heap) /\ OneOwner(arr, heap) /\ Borrowed(arr, par) /\ WritableDistinct(arr)
=============================================================================
