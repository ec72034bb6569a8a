------------------------------ MODULE GradTrace ------------------------------
(***************************************************************************)
(* Trace validation for the tensor machine, see RedstoneTrace.  After each *)
(* event every live tensor, gradient and extracted array was read again;   *)
(* e.obs holds the readings that differ from the previous ones, so a slot  *)
(* without an entry still reads as before.                                 *)
(***************************************************************************)
EXTENDS Grad, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, ten, node, acc, past
vars == <<i, ten, node, acc, past>>
Empty == [x \in {} |-> 0]
Init == i = 1 /\ ten = Empty /\ node = <<>> /\ acc = Empty /\ past = {}

Tag(S, w) == {<<t, w>> : t \in S}
If(c, S) == IF c THEN S ELSE {}
Report(S) == IF S = {} THEN TRUE ELSE PrintT(<<"MISMATCH", i, S>>)

OpTags(e) ==
    CASE e.op \in {"tbin", "tneg", "tmat", "tview", "tval", "tdet", "tget", "tinto", "tafill"} -> {"C18"}
      [] e.op = "tnew" -> {"C15", "C18"}
      [] e.op = "tback" -> {"C11"}
      [] e.op \in {"trg", "tzero"} -> {"C12"}
      [] e.op \in {"teq", "tdbg"} -> {"C16"}
      [] OTHER -> {"C14"}

ObsSlots(e) == {e.obs[k].s : k \in DOMAIN e.obs}
ObsOf(e, s) == LET k == CHOOSE k \in DOMAIN e.obs : e.obs[k].s = s IN e.obs[k]

\* the readings before the event, as adopted
WasQ(s) == IF s \in DOMAIN ten THEN ten[s].q ELSE <<-1>>
WasSh(s) == IF s \in DOMAIN ten THEN ten[s].sh ELSE <<-1>>
WasRg(s) == s \in DOMAIN ten /\ ten[s].rg
WasHg(s) == s \in DOMAIN ten /\ HasGrad(node, ten[s])
WasGq(s) == IF WasHg(s) THEN acc[ten[s].nd] ELSE <<>>

\* gradients agree; nothing is said about elements that are no finite number
SameG(a, b) == Len(a) = Len(b) /\ \A k \in DOMAIN b : b[k] = NF \/ a[k] = b[k]
SlotIssues(e, x, s) ==
    LET new == s = e.d /\ e.d # 0
        t == x.ten[s]
        seen == s \in ObsSlots(e)
        r == ObsOf(e, s)
        q == IF seen THEN r.q ELSE WasQ(s)
        sh == IF seen THEN r.sh ELSE WasSh(s)
        rg == IF seen THEN r.rg ELSE WasRg(s)
        hg == IF seen THEN r.hg ELSE WasHg(s)
        gq == IF seen THEN r.gq ELSE WasGq(s)
        xhg == HasGrad(x.node, t)
        xgq == x.acc[t.nd]
        refused == e.out # "ok"
        W == IF refused THEN {"C17"} ELSE {}
        isb == e.op = "tback" /\ ~refused
    IN
    If(seen /\ r.bad, Tag(OpTags(e) \cup {"C18"}, "unreadable"))
    \cup (IF new
          THEN If((q # t.q \/ sh # t.sh) /\ (e.op \notin {"tbin", "tneg", "tmat", "tview"} \/ ~e.rf), Tag(OpTags(e), "value"))
          ELSE If(q # t.q \/ sh # t.sh, IF e.op = "tafill" /\ s = e.s[1] THEN Tag({"C07"}, "fill")
                                         ELSE Tag({"C13", "C18", "C02"} \cup W, "value-changed")))
    \cup If(t.k = "t" /\ rg # t.rg, Tag({"C12"} \cup W, "requires-grad"))
    \cup If(t.k = "t" /\ seen /\ ~r.bad /\ r.lf # (~rg \/ t.user), Tag({"C12"}, "leaf"))
    \cup If(hg # xhg, Tag({"C12"} \cup W, "gradient-presence"))
    \cup If(hg /\ seen /\ r.gs # sh, Tag({"C11", "C12"}, "gradient-shape"))
    \cup If(hg /\ xhg /\ ~SameG(gq, xgq),
            IF isb THEN Tag({"C11"}, "gradient")
                        \cup If(WasHg(s) /\ (xgq = WasGq(s) \/ \E k \in DOMAIN WasGq(s) : WasGq(s)[k] # 0), Tag({"C12"}, "accumulation"))
                        \cup If(past # {}, Tag({"C13"}, "gradient"))
            ELSE Tag({"C12"} \cup W \cup If(e.op \notin {"tzero", "trg"}, {"C13"}), "gradient-changed"))

GIssues(e, x) ==
    IF e.out \in {"crash", "hang"} THEN Tag({"C14", "C13"} \cup OpTags(e), e.out) \cup If(x.st = "panic", Tag({"C17"}, e.out))
    ELSE (IF e.out = "panic"
          THEN If(x.st = "ok" /\ (e.op \notin {"tbin", "tneg", "tmat", "tview"} \/ ~e.rf), Tag(OpTags(e), "refused"))
               \cup If(x.st = "ok" /\ e.op = "tback" /\ past # {}, Tag({"C13"}, "refused"))
          ELSE If(x.st = "panic", Tag(OpTags(e) \cup {"C17"}, "not-refused"))
               \cup If(e.op = "tval" /\ x.st = "ok" /\ (e.rk # "seq" \/ e.q # x.q), Tag({"C18"}, "value"))
               \cup If(e.op = "tdbg" /\ (e.rk # "seq" \/ e.q # x.q), Tag({"C16"}, "text"))
               \cup If(e.op = "teq" /\ (e.rk # "bool" \/ e.b # x.b), Tag({"C16"}, "answer")))
         \cup If(e.err # <<>>, Tag({"C14", "C13"}, "memory-error"))
         \cup UNION {SlotIssues(e, x, s) : s \in (IF e.out = "ok" /\ x.st # "panic" THEN DOMAIN x.ten
                                                  ELSE {y \in DOMAIN x.ten : y # e.d})}

\* the state after a refused call is the one before it, less what it consumed

\* an operation on arbitrary floating-point numbers, made on tensors (out, sh, q)
\* and on arrays (aout, ash, aq): the two agree
TwinIssues(e) ==
    IF e.out \in {"crash", "hang"} THEN Tag({"C14", "C18"}, e.out)
    ELSE If(e.out # e.aout, Tag({"C18"}, "refused"))
         \cup If(e.out = "ok" /\ e.aout = "ok" /\ (e.sh # e.ash \/ e.q # e.aq), Tag({"C18"}, "value"))
         \cup If(e.err # <<>>, Tag({"C14"}, "memory-error"))

Effect(e) ==
    LET x == GStep(ten, node, acc, e) IN
    IF e.out = "ok" \/ x.st = "panic" THEN x
    ELSE [GPanic(ten, node, acc, e) EXCEPT !.st = x.st]

\* adopt what was observed
Adopt(e, x) ==
    LET D == IF e.out = "ok" /\ x.st # "panic" THEN DOMAIN x.ten ELSE {y \in DOMAIN x.ten : y # e.d}
        \* a result that should have been refused becomes a constant
        D2 == IF e.out = "ok" /\ e.d # 0 /\ e.d \in ObsSlots(e) THEN D \cup {e.d} ELSE D
    IN [s \in D2 |->
          LET t == IF s \in D THEN x.ten[s] ELSE NewT(<<>>, <<>>, FALSE, FALSE, 0) IN
          IF s \in ObsSlots(e)
          THEN LET r == ObsOf(e, s) IN [t EXCEPT !.sh = r.sh, !.q = r.q, !.rg = r.rg, !.u = r.u, !.nd = IF r.rg THEN @ ELSE 0]
          ELSE t]
AdoptAcc(e, x) ==
    [n \in DOMAIN x.acc |->
       LET S == {s \in ObsSlots(e) \cap DOMAIN x.ten : x.ten[s].nd = n /\ ObsOf(e, s).hg /\ Len(ObsOf(e, s).gq) = Len(x.acc[n])}
       IN IF S # {} THEN ObsOf(e, CHOOSE s \in S : TRUE).gq
          ELSE IF n \in DOMAIN acc /\ \E s \in DOMAIN x.ten : x.ten[s].nd = n THEN acc[n]
          ELSE x.acc[n]]

EndIssues(e) == If(e.leak > 0, Tag({"C14"}, "leak")) \cup If(e.err # <<>>, Tag({"C14", "C13"}, "memory-error"))

Next ==
    /\ i <= Len(Trace)
    /\ i' = i + 1
    /\ LET e == Trace[i] IN
       CASE e.op = "prog" -> ten' = Empty /\ node' = <<>> /\ acc' = Empty /\ past' = {}
         [] e.op = "end" -> Report(EndIssues(e)) /\ ten' = Empty /\ node' = <<>> /\ acc' = Empty /\ past' = {}
         [] e.op = "tfin" -> Report(Tag({"C14", "C13"}, e.out)) /\ ten' = Empty /\ node' = <<>> /\ acc' = Empty /\ past' = {}
         [] e.op = "twin" -> Report(TwinIssues(e)) /\ UNCHANGED <<ten, node, acc, past>>
         [] OTHER ->
              LET x == TLCEval(Effect(e)) IN
              /\ Report(GIssues(e, x))
              /\ ten' = TLCEval(Adopt(e, x))
              /\ node' = x.node
              /\ acc' = TLCEval(AdoptAcc(e, x))
              /\ past' = past \cup (IF e.c # <<>> THEN {"gone"} ELSE {}) \cup (IF e.op = "tback" THEN {"back"} ELSE {})
Spec == Init /\ [][Next]_vars
Complete == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
