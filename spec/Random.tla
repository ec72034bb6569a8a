------------------------------- MODULE Random -------------------------------
(***************************************************************************)
(* Random constructors as a source of samples.  A stream is a sequence of  *)
(* calls with one form, element type and range; each call either is        *)
(* refused (exactly for an empty integer range) or returns an owned        *)
(* row-major array of the requested shape, all of whose elements lie in    *)
(* the range.  tally counts, over the calls of a stream, the elements per  *)
(* cell of a partition of the range.                                       *)
(*                                                                         *)
(* "With equal probability" cannot be decided by a finite number of        *)
(* samples; the tally of a cell of probability p after n samples is        *)
(* accepted within 6.5 standard deviations of n*p, which a correct source  *)
(* leaves with a probability below 1e-10.                                  *)
(***************************************************************************)
EXTENDS Core

Unit == 10000
\* probabilities, in units of 1/10000, of the cells bounded by
\* -2.5 -1.5 -1 -.5 0 .5 1 1.5 2.5 under the standard normal distribution
Normal == <<62, 606, 919, 1499, 1915, 1915, 1499, 919, 606, 62>>
Probs(h) == IF h.form = "randn" THEN Normal ELSE [k \in 1..h.nb |-> Unit \div h.nb]

Sum(f) == FoldLeft(LAMBDA a, x : a + x, 0, f)
\* count c of n trials is plausible for probability p (units of 1/Unit)
Plausible(c, n, p) ==
    LET d == Abs(c - ((n \div 100) * p) \div 100)
        v == (((n \div 100) * p) \div Unit) * ((Unit - p) \div 100) + 4
        slack == n \div 2000 + 110     \* rounding of n * p and of p
    IN d <= slack \/ (d <= 40000 /\ (d - slack) * (d - slack) <= 42 * v)
\* probability that two successive samples fall into the same cell
PairP(h) == Sum([k \in 1..h.nb |-> (Probs(h)[k] * Probs(h)[k]) \div Unit])

Start(h) == [h |-> [k \in 1..h.nb |-> 0], n |-> 0, dup |-> 0, pr |-> 0, np |-> 0]
Refused(h) == h.form = "randint" /\ h.refuse
Tally(t, e) == [h |-> [k \in DOMAIN t.h |-> t.h[k] + e.h[k]], n |-> t.n + e.cnt, dup |-> t.dup + e.dup,
                pr |-> t.pr + e.pr, np |-> t.np + e.np]
\* what is wrong with one call
CallIssues(h, e) ==
    IF e.out # "ok" THEN (IF Refused(h) THEN {} ELSE {"refused"})
    ELSE IF Refused(h) THEN {"not-refused"}
    ELSE (IF e.sh # e.n THEN {"shape"} ELSE {})
         \cup (IF e.cnt # Size(e.n) THEN {"count"} ELSE {})
         \cup (IF ~e.c \/ e.vw \/ ~e.lf THEN {"storage"} ELSE {})
         \cup (IF e.lo > 0 \/ e.hi > 0 THEN {"range"} ELSE {})
         \cup (IF e.odd > 0 THEN {"not-a-sample"} ELSE {})
         \cup (IF e.same THEN {"copy-of-earlier-call"} ELSE {})
\* what is wrong with a whole stream; streams of few samples say nothing
StreamIssues(h, t) ==
    IF t.n < 20000 THEN {}
    ELSE (IF \E k \in DOMAIN t.h : ~Plausible(t.h[k], t.n, Probs(h)[k]) THEN {"distribution"} ELSE {})
         \cup (IF h.nb > 1 /\ ~Plausible(t.pr, t.np, PairP(h)) THEN {"dependence"} ELSE {})
         \cup (IF t.dup > h.tol THEN {"copies"} ELSE {})
=============================================================================
