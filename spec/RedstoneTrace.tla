---------------------------- MODULE RedstoneTrace ----------------------------
(***************************************************************************)
(* Trace validation: every recorded event of the real library must be a    *)
(* step the specification allows.  The state after an event is adopted     *)
(* from the recording, so each deviation is attributed to the event that   *)
(* caused it; deviations are printed as                                    *)
(*    <<"MISMATCH", line, {<<property, what>>, ...}>>                      *)
(***************************************************************************)
EXTENDS Redstone, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, hdr, arr, heap
vars == <<i, hdr, arr, heap>>

NoHdr == [md |-> "fp", z |-> 0, nz |-> 0, nan |-> -1, abs |-> <<>>]
Empty == [x \in {} |-> 0]

Init == i = 1 /\ hdr = NoHdr /\ arr = Empty /\ heap = Empty

Report(S) == IF S = {} THEN TRUE ELSE PrintT(<<"MISMATCH", i, S>>)

EndIssues(e) == If(e.leak > 0, Tag({"C14"}, "leak")) \cup If(e.err # <<>>, Tag({"C14"}, "memory-error"))

Next ==
    /\ i <= Len(Trace)
    /\ i' = i + 1
    /\ LET e == Trace[i] IN
       CASE e.op = "prog" -> hdr' = e /\ arr' = Empty /\ heap' = Empty
         [] e.op = "end" -> Report(EndIssues(e)) /\ hdr' = hdr /\ arr' = Empty /\ heap' = Empty
         [] OTHER ->
              /\ hdr' = hdr
              /\ Report(Issues(hdr, arr, heap, HeapWith(heap, e), e))
              /\ arr' = NextArr(arr, e)
              /\ heap' = NextHeap(heap, e)
Spec == Init /\ [][Next]_vars
Complete == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
