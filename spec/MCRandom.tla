------------------------------ MODULE MCRandom ------------------------------
(***************************************************************************)
(* Bounded model of the random constructors.                               *)
(*                                                                         *)
(* An ideal source answers requests: it refuses exactly the empty integer  *)
(* ranges and otherwise returns any assignment of range cells to the       *)
(* elements.  TLC explores every history of up to DEPTH calls of every     *)
(* small request and checks that the specification (Random.tla)            *)
(*   - accepts every answer of the ideal source, and                       *)
(*   - rejects every answer that deviates from it in one respect.          *)
(* The statistical acceptance is checked on a grid of sample counts and    *)
(* probabilities: counts within 5 standard deviations are accepted, those  *)
(* beyond 12 (and the rounding allowance) are not.                         *)
(* Every request is written out as a stream of calls to be replayed.       *)
(***************************************************************************)
EXTENDS Random, Json, IOUtils

DEPTH == atoi(IOEnv.DEPTH)
Ints == <<"i8", "i16", "i32", "i64", "i128", "isize", "u8", "u16", "u32", "u64", "u128", "usize">>
Floats == <<"f32", "f64">>
Req(dt, via, f, lo, hi, at) == [dt |-> dt, via |-> via, f |-> f, lo |-> lo, hi |-> hi, at |-> at]
IntReqs == {Req(Ints[t], "array", "randint", lo, hi, at) : t \in 1..12, lo \in -3..3, hi \in -3..4, at \in {-1, 0, 1}}
FltReqs == {Req(Floats[t], v, f, lo, hi, 0) : t \in 1..2, v \in {"array", "tensor"}, f \in {"randint"}, lo \in -3..3, hi \in -3..4}
           \cup {r \in {Req(Floats[t], v, "uniform", lo, hi, 0) : t \in 1..2, v \in {"array", "tensor"}, lo \in -3..3, hi \in -2..5} : r.lo < r.hi}
           \cup {Req(Floats[t], v, f, 0, 1, 0) : t \in 1..2, v \in {"array", "tensor"}, f \in {"rand", "randn"}}
\* bounds outside the element type cannot be written down
Unsigned(dt) == dt \in {"u8", "u16", "u32", "u64", "u128", "usize"}
Writable(r) == /\ r.at = 0 => (Unsigned(r.dt) => r.lo >= 0 /\ r.hi >= 0)
               /\ r.at = -1 => r.lo >= 0 /\ r.hi >= 0
               /\ r.at = 1 => r.lo <= 0 /\ r.hi <= 0
Reqs == {r \in IntReqs \cup FltReqs : Writable(r)}

\* the header the harness writes for a request
Hdr(r) == [form |-> r.f, nb |-> IF r.f = "randint" THEN (IF r.lo < r.hi THEN r.hi - r.lo ELSE 1) ELSE IF r.f = "randn" THEN 10 ELSE 8,
           refuse |-> r.f = "randint" /\ r.lo >= r.hi, tol |-> 3]

Shapes == <<<<>>, <<1>>, <<3>>, <<2, 3>>, <<2, 1, 2>>, <<1, 1>>, <<150, 140>>, <<>>, <<4>>>>
Prog(r) == [k |-> "rand", cmds |-> [i \in 1..Len(Shapes) |-> [op |-> "rand", f |-> r.f, t |-> <<r.dt, r.via>>, n |-> Shapes[i], v |-> <<r.lo, r.hi, r.at>>]]]

\* ------------------------------------------------------ the ideal source
Small == {<<>>, <<1>>, <<2>>, <<1, 2>>}
Cnt(nb, els) == [k \in 1..nb |-> Cardinality({i \in DOMAIN els : els[i] = k})]
Pairs(els, last) == Cardinality({i \in DOMAIN els : i > 1 /\ els[i] = els[i - 1]}) + (IF last # 0 /\ els # <<>> /\ els[1] = last THEN 1 ELSE 0)
Good(h, sh, els) == [op |-> "rand", out |-> "ok", n |-> sh, sh |-> sh, cnt |-> Size(sh), c |-> TRUE, vw |-> FALSE, lf |-> TRUE, lo |-> 0, hi |-> 0, odd |-> 0,
                     dup |-> 0, pr |-> Pairs(els, 0), np |-> Len(els) - 1, same |-> FALSE, h |-> Cnt(h.nb, els)]
Answers(h, sh) == IF h.refuse THEN {[op |-> "rand", out |-> "panic", n |-> sh]}
                  ELSE {Good(h, sh, els) : els \in [1..Size(sh) -> 1..(IF h.nb > 3 THEN 3 ELSE h.nb)]}
\* answers differing from an ideal one in one respect
Wrong(h, e) ==
    IF h.refuse THEN {Good(h, e.n, [i \in 1..Size(e.n) |-> 1])}
    ELSE {[op |-> "rand", out |-> "panic", n |-> e.n], [e EXCEPT !.sh = Append(@, 1)], [e EXCEPT !.sh = <<2, 2>>], [e EXCEPT !.cnt = @ + 1], [e EXCEPT !.c = FALSE],
          [e EXCEPT !.vw = TRUE], [e EXCEPT !.lf = FALSE], [e EXCEPT !.lo = 1], [e EXCEPT !.hi = 1], [e EXCEPT !.odd = 1], [e EXCEPT !.same = TRUE]}

VARIABLES req, tally, n
vars == <<req, tally, n>>
Init == /\ req \in Reqs
        /\ tally = Start(Hdr(req)) /\ n = 0
        /\ PrintT("PROG " \o ToJson(Prog(req)))
Call == /\ n < DEPTH
        /\ \E sh \in Small : \E e \in Answers(Hdr(req), sh) :
              /\ Assert(CallIssues(Hdr(req), e) = {}, <<"ideal answer rejected", req, e>>)
              /\ Assert(\A b \in Wrong(Hdr(req), e) : CallIssues(Hdr(req), b) # {}, <<"bad answer accepted", req, e>>)
              /\ tally' = IF e.out = "ok" THEN Tally(tally, e) ELSE tally
        /\ n' = n + 1 /\ UNCHANGED req
Spec == Init /\ [][Call]_vars

\* tallies count each element once; a few samples never raise an alarm
Inv == /\ Sum(tally.h) = tally.n
       /\ StreamIssues(Hdr(req), tally) = {}

\* ------------------------------------------------- statistical acceptance
RECURSIVE Root(_, _)
Root(v, r) == IF r * r >= v THEN r ELSE Root(v, r + 1)       \* ceiling of the square root
NN == {20000, 50000, 90000, 200000, 1000000, 15000000}
PP == {1, 62, 625, 1250, 2000, 2500, 3333, 5000}
Mean(m, p) == ((m \div 100) * p) \div 100
Sigma(m, p) == Root(((((m \div 100) * p) \div 10000) * ((10000 - p) \div 100)) + 1, 0)
ASSUME \A m \in NN, p \in PP : LET s == Sigma(m, p) IN
       /\ \A k \in {0, 1, 3, 5} : Plausible(Mean(m, p) + k * s, m, p) /\ Plausible(Max2(0, Mean(m, p) - k * s), m, p)
       /\ ~Plausible(Mean(m, p) + 12 * s + m \div 2000 + 200, m, p)
       /\ Mean(m, p) > 12 * s + m \div 2000 + 200 => ~Plausible(Mean(m, p) - 12 * s - m \div 2000 - 200, m, p)
\* a missing value, a doubled one, and one never hit are noticed
ASSUME \A nb \in 2..15 :
       LET h == [form |-> "randint", nb |-> nb, refuse |-> FALSE, tol |-> 0]
           m == 21000
           T(f) == [h |-> f, n |-> m, dup |-> 0, pr |-> Mean(m, PairP(h)), np |-> m]
       IN /\ StreamIssues(h, T([k \in 1..nb |-> m \div nb])) = {}
          /\ StreamIssues(h, T([k \in 1..nb |-> IF k = nb THEN 0 ELSE m \div (nb - 1)])) # {}
          /\ StreamIssues(h, T([k \in 1..nb |-> IF k = 1 THEN (2 * m) \div (nb + 1) ELSE m \div (nb + 1)])) # {}
=============================================================================
