------------------------------ MODULE MCSender ------------------------------
(* Every short list of small files sent to the frame processor (Ingest),    *)
(* with a frame that cannot be sent at any point.                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Blk, CcbLen, Sizes, MaxFiles, Max, Faults
VARIABLES opts, todo, cur, pseq, fseq, status, sent,
          cfg, act, cnt, last, emit, ovl,
          files, lostn, bad, out     \* ghosts: the list, frames lost, files not sent whole, handed over
sv == <<opts, todo, cur, pseq, fseq, status, sent>>
iv == <<cfg, act, cnt, last, emit, ovl>>
mv == <<opts, todo, cur, pseq, fseq, status, sent, cfg, act, cnt, last, emit, ovl, files, lostn, bad, out>>

CcbM == [i \in 1..CcbLen |-> <<0, i>>]
AcceptM(c, n) == n.fname # "rejected"
SaveM(c, n) == TRUE
S == INSTANCE Sender WITH B <- Blk, Ccb <- CcbM, MaxBlocks <- Max, HdrFirst <- 68, HdrNext <- 32
I == INSTANCE Ingest WITH Channels <- {0}, Accept <- AcceptM, SaveZ <- SaveM

File(ok, n, nm) == [ok |-> ok, size |-> n, text |-> [j \in 1..n |-> <<n, j>>], nm |-> nm]
FileSet == {File(TRUE, n, "good") : n \in Sizes}
           \cup {File(FALSE, 1, "good"), File(TRUE, 1, "rejected"), File(TRUE, 1, "bad")}
Lists == UNION {[1..k -> FileSet] : k \in 0..MaxFiles}

Init == /\ files \in Lists
        /\ \E s \in {<<0, 7>>} : S!Init([start |-> s, type |-> 4], files, <<0, 65534>>)
        /\ I!Init /\ cfg = "c" /\ lostn = 0 /\ bad = {} /\ out = <<>>

\* what the receiver makes of the frame: the name is read from the text
Received(x) == [k |-> "data", name |-> IF ~x.f.start THEN [ok |-> FALSE]
                                       ELSE IF x.file.nm = "bad" THEN [ok |-> FALSE]
                                       ELSE [ok |-> TRUE, fname |-> x.file.nm]] @@ x.f
Index == Len(files) - Len(todo')          \* number of the file a step is about

DoSkip == S!Skip /\ bad' = bad \cup {Index} /\ emit' = <<>> /\ UNCHANGED <<cfg, act, cnt, last, ovl, files, lostn, out>>
DoSend == /\ S!Send(FALSE) /\ I!Frame(0, Received(sent'))
          /\ out' = out \o emit' /\ UNCHANGED <<files, lostn, bad>>
DoLose == /\ lostn < Faults /\ S!Send(TRUE) /\ lostn' = lostn + 1 /\ bad' = bad \cup {Index}
          /\ emit' = <<>> /\ UNCHANGED <<cfg, act, cnt, last, ovl, files, out>>
Next == DoSkip \/ DoSend \/ DoLose
Spec == Init /\ [][Next]_mv /\ WF_mv(DoSkip \/ DoSend)

Tried == Len(files) - Len(todo) - (IF cur = S!NoFile THEN 0 ELSE 1)
RECURSIVE Whole(_)
\* the products that must have been received: files sent whole, under their names
Whole(k) == IF k = 0 THEN <<>>
            ELSE Whole(k - 1) \o (IF k \in bad \/ files[k].nm # "good" THEN <<>> ELSE <<k>>)
Seq0(k) == IF 65534 + k <= 65535 THEN <<0, 65534 + k>> ELSE <<1, k - 2>>
Complete == SelectSeq(out, LAMBDA p : p.ok)
ReceivedExactly ==
  LET w == Whole(Tried) IN
  /\ Len(Complete) = Len(w)
  /\ \A i \in 1..Len(w) : /\ Complete[i].body = CcbM \o files[w[i]].text
                          /\ Complete[i].seq = Seq0(w[i])
                          /\ Complete[i].name.fname = "good"
                          /\ Complete[i].ccb
NoErrors == /\ cnt.bad = 0 /\ cnt.abort = 0 /\ cnt.rtx = 0
            /\ lostn = 0 => cnt.jump = 0
            /\ cnt.missed <= Cardinality({k \in 1..Len(files) : files[k].nm = "bad"}) + lostn
            /\ \A i \in 1..Len(out) : ~out[i].ok => lostn > 0
ReportsFailure == status = 1 <=> bad # {}
FrameFits == sent.n = 1 => Len(sent.f.data) <= Blk
Numbered == sent.n = 1 => sent.f.blk < Max
Ends == <>(S!Finished)
=============================================================================
