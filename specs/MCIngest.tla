------------------------------ MODULE MCIngest ------------------------------
(***************************************************************************)
(* Bounded model of frame processing on a small alphabet of frames, with   *)
(* the history of received frames as a ghost: the properties below are     *)
(* stated on the history, independently of how Ingest computes its state.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json

CONSTANTS Depth,      \* number of frames
          Chans,      \* channels
          Seqs,       \* product sequence numbers (low word)
          MaxBlk,     \* largest block number
          Rich        \* TRUE: also damaged, non-data, retransmitted, rejected frames

VARIABLES cfg, act, cnt, last, emit, ovl,
          hist,       \* <<ch, frame>> received so far, in order
          out,        \* everything handed over so far: [p, at] (at: length of hist)
          aborts      \* aborts that hit a product
mvars == <<cfg, act, cnt, last, emit, ovl, hist, out, aborts>>

AcceptM(c, n) == n.fname # "rejected"
SaveM(c, n) == TRUE
I == INSTANCE Ingest WITH Channels <- Chans, Accept <- AcceptM, SaveZ <- SaveM

Name(k) == IF k = "bad" THEN [ok |-> FALSE] ELSE [ok |-> TRUE, fname |-> k]

Data(seq, blk, start, prog, end, nf, name, orig) ==
  [k |-> "data", sbnseq |-> <<0, 1>>, ds |-> 5, err |-> FALSE, start |-> start,
   prog |-> prog, end |-> end, z |-> FALSE, blk |-> blk, seq |-> <<0, seq>>,
   ctrl |-> <<>>, data |-> <<<<seq, blk>>>>, ccb |-> FALSE, rtx |-> orig # 0,
   orig |-> <<0, orig>>, type |-> 0, cat |-> 0, code |-> 0,
   nf |-> IF blk = 0 THEN nf ELSE 0,
   name |-> IF blk = 0 THEN Name(name) ELSE [ok |-> FALSE]]

Flags == {<<TRUE, TRUE, FALSE>>, <<TRUE, TRUE, TRUE>>, <<FALSE, TRUE, FALSE>>,
          <<FALSE, TRUE, TRUE>>, <<FALSE, FALSE, TRUE>>}
Plain ==
  UNION {{Data(s, b, fl[1], fl[2], fl[3], n, "good", 0) :
             n \in IF b = 0 /\ fl[1] THEN 0..(MaxBlk + 1) ELSE {1}} :
         s \in Seqs, b \in 0..MaxBlk, fl \in Flags}
Err(s) == [Data(s, 1, FALSE, TRUE, FALSE, 1, "good", 0) EXCEPT !.err = TRUE]
Others ==
  {Err(s) : s \in Seqs}
  \cup {Data(s, 0, TRUE, TRUE, TRUE, 1, n, 0) : s \in Seqs, n \in {"bad", "rejected"}}
  \cup {Data(s, 0, TRUE, TRUE, TRUE, 1, "good", 7) : s \in Seqs}
  \cup {Data(s, 0, TRUE, FALSE, FALSE, 2, "good", 0) : s \in Seqs}
  \cup {[k |-> "bad"], [k |-> "nondata", sbnseq |-> <<0, 1>>], [k |-> "unzerr", sbnseq |-> <<0, 1>>]}
Frames == Plain \cup (IF Rich THEN Others ELSE {})

Init == /\ I!Init /\ cfg = "c" /\ hist = <<>> /\ out = <<>> /\ aborts = 0

Recv(ch, f) ==
  /\ Len(hist) < Depth
  /\ I!Frame(ch, f)
  /\ hist' = Append(hist, <<ch, f>>)
  /\ out' = out \o [i \in 1..Len(emit') |-> [p |-> emit'[i], at |-> Len(hist) + 1]]
  /\ aborts' = aborts + (IF f.k = "data" THEN (IF f.err /\ I!IsActive(act[ch]) THEN 1 ELSE 0) ELSE 0)
Overload == /\ Rich /\ Len(hist) < Depth /\ ~ovl /\ I!SetOverload(TRUE)
            /\ UNCHANGED <<hist, out, aborts>>
Next == (\E ch \in Chans, f \in Frames : Recv(ch, f)) \/ Overload
Spec == Init /\ [][Next]_mvars

-----------------------------------------------------------------------------
(* The transmission that ends at position e of the history on channel ch,   *)
(* read off the history alone: the frames of that product from its START on *)
OnCh(ch, i) == hist[i][1] = ch /\ hist[i][2].k = "data"
IsStart(ch, i) == OnCh(ch, i) /\ ~hist[i][2].err /\ hist[i][2].start /\ hist[i][2].blk = 0
LastStart(ch, e) == LET S == {i \in 1..e : IsStart(ch, i)}
                    IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : j <= i
Blocks(ch, b, e, s) ==      \* block numbers and data of the product frames b..e
  LET Sel(n) == OnCh(ch, n) /\ ~hist[n][2].err /\ hist[n][2].prog /\ hist[n][2].seq = s
                /\ ~(hist[n][2].start /\ hist[n][2].blk # 0)
      RECURSIVE R(_)
      R(i) == IF i > e THEN <<>> ELSE (IF Sel(i) THEN <<hist[i][2]>> ELSE <<>>) \o R(i + 1)
  IN R(b)

\* C02: a product is complete only if it is exactly one transmission
CompleteIsTransmission ==
  \A k \in 1..Len(out) : out[k].p.ok =>
    LET p == out[k].p
        e == out[k].at
        b == LastStart(p.ch, e)
        fr == Blocks(p.ch, b, e, p.seq)
    IN /\ b > 0
       /\ hist[b][2].seq = p.seq
       /\ hist[b][2].name.ok /\ hist[b][2].name.fname # "rejected"
       /\ hist[e][1] = p.ch /\ hist[e][2].end /\ hist[e][2].seq = p.seq
       /\ Len(fr) >= (IF hist[b][2].nf = 0 THEN 1 ELSE hist[b][2].nf)
       /\ \A i \in 1..Len(fr) : fr[i].blk = i - 1
       /\ p.body = [i \in 1..Len(fr) |-> <<p.seq[2], i - 1>>]
       /\ ~\E i \in b..e : OnCh(p.ch, i) /\ hist[i][2].err
       \* not complete twice
       /\ ~\E j \in 1..Len(out) : j # k /\ out[j].p.ok /\ out[j].p.ch = p.ch /\ out[j].at >= b
                                  /\ LastStart(p.ch, out[j].at) = b /\ out[j].p.seq = p.seq

\* ... and an undisturbed transmission is always handed over complete
Undisturbed ==
  \A e \in 1..Len(hist), ch \in Chans :
    LET b == LastStart(ch, e)
        f == hist[e][2]
    IN (b > 0 /\ OnCh(ch, e) /\ ~f.err /\ f.end /\ f.seq = hist[b][2].seq
        /\ ~(f.start /\ f.blk # 0)
        /\ hist[b][2].name.ok /\ hist[b][2].name.fname # "rejected" /\ ~hist[b][2].rtx
        /\ \A i \in b..e : OnCh(ch, i) =>
              (~hist[i][2].err /\ hist[i][2].seq = f.seq
               /\ (hist[i][2].end => i = e))
        /\ LET fr == Blocks(ch, b, e, f.seq)
           IN /\ Len(fr) >= (IF hist[b][2].nf = 0 THEN 1 ELSE hist[b][2].nf)
              /\ \A n \in 1..Len(fr) : fr[n].blk = n - 1)
       => \E k \in 1..Len(out) : out[k].p.ok /\ out[k].at = e /\ out[k].p.seq = f.seq /\ out[k].p.ch = ch

\* C03: exactly one outcome for each START of a first block
Started == Cardinality({i \in 1..Len(hist) : \E ch \in Chans : IsStart(ch, i)})
ExactAccounting ==
  /\ cnt.tx = Started
  /\ cnt.tx = cnt.done + cnt.missed + cnt.rej + aborts + I!NumActive
  /\ cnt.done = Cardinality({k \in 1..Len(out) : out[k].p.ok})
  /\ Cardinality({k \in 1..Len(out) : ~out[k].p.ok}) <= cnt.missed
Accounting == I!Accounting /\ I!FrameAccounting

\* C01: what is not a well formed data frame touches no product and hands nothing over
BadFramesHarmless ==
  [][(Len(hist') > Len(hist) /\ hist'[Len(hist')][2].k # "data")
       => (act' = act /\ emit' = <<>> /\ cnt'.tx = cnt.tx /\ cnt'.done = cnt.done
           /\ cnt'.missed = cnt.missed /\ cnt'.rej = cnt.rej /\ cnt'.abort = cnt.abort)]_mvars

\* C05: nothing rejected is ever handed over, and retransmissions only out of overload
NothingRejectedIsHandedOver == \A k \in 1..Len(out) : out[k].p.name.fname # "rejected"
NoRtxWhenOverloaded == [][ovl => \A ch \in Chans : I!IsActive(act'[ch]) =>
                             (act'[ch].orig = <<0, 0>> \/ act'[ch].seq = act[ch].seq)]_mvars

\* Channels are independent
Independent ==
  [][\A ch \in Chans : (Len(hist') > Len(hist) /\ hist'[Len(hist')][1] # ch)
        => (act'[ch] = act[ch] /\ last'[ch] = last[ch])]_mvars

-----------------------------------------------------------------------------
(* Generation of inputs: in simulation mode each behaviour of full length is printed *)
Abs(f) == IF f.k # "data" THEN [k |-> f.k]
          ELSE [k |-> "data", s |-> f.start, p |-> f.prog, e |-> f.end, x |-> f.err, b |-> f.blk, q |-> f.seq[2],
                n |-> f.nf, w |-> IF f.name.ok THEN f.name.fname ELSE "bad", o |-> f.orig[2]]
Emitted == Len(hist) = Depth =>
   PrintT("GEN " \o ToJson([i \in 1..Len(hist) |-> [c |-> hist[i][1], f |-> Abs(hist[i][2])]]))
=============================================================================
