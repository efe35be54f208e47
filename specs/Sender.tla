------------------------------- MODULE Sender -------------------------------
(***************************************************************************)
(* Packing files into SBN frames (tools/nbspmcast): each file, preceded by *)
(* a communications control block, is cut into blocks of B bytes, and each *)
(* block is sent in a frame of its own.  One action per frame.  A file     *)
(* that cannot be read, or that has more blocks than the 16 bit block      *)
(* number can count, is not sent at all; when a frame cannot be sent the   *)
(* rest of its file is not sent either.  Both are reported by the exit     *)
(* status, and neither affects the other files.                            *)
(*                                                                         *)
(* A frame is a record as built by SbnWire!Decode, without its name.       *)
(***************************************************************************)
EXTENDS Naturals, Sequences

CONSTANTS B,            \* bytes in a block
          Ccb,          \* what precedes the text of each file
          MaxBlocks,    \* what the block number and the fragment count can hold
          HdrFirst, HdrNext   \* header length of the first and of the other frames

VARIABLES opts,     \* [start, type]: number of the first frame of a file, product type
          todo,     \* files still to be sent: [ok, size, text]
          cur,      \* the file being sent, or NoFile
          pseq,     \* product sequence number of the last file tried
          fseq,     \* number of the last frame sent
          status,   \* exit status
          sent      \* the frame offered to the network by this step, or NoFrame

svars == <<opts, todo, cur, pseq, fseq, status, sent>>
NoFile == [n |-> 0]
NoFrame == [n |-> 0, lost |-> FALSE]

WInc(a) == IF a[2] < 65535 THEN <<a[1], a[2] + 1>>
           ELSE IF a[1] < 65535 THEN <<a[1] + 1, 0>> ELSE <<0, 0>>

\* Every block but the last is full; when the text fills its blocks exactly the
\* last one may be empty.
Counts(f) == LET n == Len(Ccb) + f.size IN
             {(n \div B) + 1} \cup (IF n > 0 /\ n % B = 0 THEN {n \div B} ELSE {})
Usable(f) == f.ok /\ \E nb \in Counts(f) : nb <= MaxBlocks
Refusable(f) == ~f.ok \/ \E nb \in Counts(f) : nb > MaxBlocks
Body(f) == Ccb \o f.text
Block(f, i) == LET t == Body(f)
                   e == IF (i + 1) * B < Len(t) THEN (i + 1) * B ELSE Len(t)
               IN SubSeq(t, i * B + 1, e)

Init(o, files, p0) ==
  /\ opts = o /\ todo = files /\ cur = NoFile /\ pseq = p0 /\ fseq = o.start
  /\ status = 0 /\ sent = NoFrame

Skip == /\ cur = NoFile /\ todo # <<>> /\ Refusable(Head(todo))
        /\ todo' = Tail(todo) /\ pseq' = WInc(pseq) /\ status' = 1
        /\ sent' = NoFrame
        /\ UNCHANGED <<opts, cur, fseq>>

FrameOf(f, nb, i, p, n) ==
  [sbnseq |-> n, ds |-> 5, err |-> FALSE, start |-> i = 0, prog |-> TRUE,
   end |-> i = nb - 1, z |-> FALSE, blk |-> i, seq |-> p, ctrl |-> <<>>,
   data |-> Block(f, i), ccb |-> i = 0, rtx |-> FALSE, orig |-> <<0, 0>>,
   type |-> IF i = 0 THEN opts.type ELSE 0, cat |-> 0, code |-> 0,
   nf |-> IF i = 0 THEN nb ELSE 0]

\* The frames of a file are numbered consecutively; each file starts again
\* from the configured number, or goes on from the previous one.
FirstNumbers == {opts.start, WInc(fseq)}

Send(lost) ==
  /\ cur # NoFile \/ (todo # <<>> /\ Usable(Head(todo)))
  /\ \E nb \in (IF cur = NoFile THEN {c \in Counts(Head(todo)) : c <= MaxBlocks} ELSE {cur.nb}) :
     LET new == cur = NoFile
         f == IF new THEN Head(todo) ELSE cur.f
         i == IF new THEN 0 ELSE cur.n
         p == IF new THEN WInc(pseq) ELSE pseq
     IN /\ todo' = IF new THEN Tail(todo) ELSE todo
        /\ pseq' = p
        /\ \E n \in (IF new THEN FirstNumbers ELSE {WInc(fseq)}) :
              /\ fseq' = n
              /\ sent' = [n |-> 1, lost |-> lost, f |-> FrameOf(f, nb, i, p, n), file |-> f,
                          len |-> IF i = 0 THEN HdrFirst ELSE HdrNext]
        /\ cur' = IF lost \/ i = nb - 1 THEN NoFile ELSE [n |-> i + 1, f |-> f, nb |-> nb]
        /\ status' = IF lost THEN 1 ELSE status
        /\ UNCHANGED opts

Finished == cur = NoFile /\ todo = <<>>
=============================================================================
