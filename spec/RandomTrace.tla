---------------------------- MODULE RandomTrace -----------------------------
EXTENDS Random, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, hdr, tally
vars == <<i, hdr, tally>>
Init == i = 1 /\ hdr = [form |-> "none", nb |-> 0] /\ tally = Start([nb |-> 0])
Report(S) == IF S = {} THEN TRUE ELSE PrintT(<<"MISMATCH", i, {<<"C19", w>> : w \in S}>>)
Next ==
    /\ i <= Len(Trace)
    /\ i' = i + 1
    /\ LET e == Trace[i] IN
       CASE e.op = "prog" -> hdr' = e /\ tally' = Start(e)
         [] e.op = "rand" -> /\ hdr' = hdr
                             /\ Report(CallIssues(hdr, e))
                             /\ tally' = IF e.out = "ok" THEN TLCEval(Tally(tally, e)) ELSE tally
         [] OTHER -> Report(StreamIssues(hdr, tally)) /\ UNCHANGED <<hdr, tally>>
Spec == Init /\ [][Next]_vars
Complete == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
