---------------------------- MODULE TraceSender ----------------------------
(* Validates recorded runs of nbspmcast, whose frames are given to the frame *)
(* processor, against Sender composed with Ingest.                           *)
EXTENDS SbnWire, Integers, Json, TLCExt
CONSTANT TraceFile, IndexFile, FreeAt
Events == ndJsonDeserialize(TraceFile)
Index  == ndJsonDeserialize(IndexFile)
VARIABLES tr, l, opts, todo, cur, pseq, fseq, status, sent, cfg, act, cnt, last, emit, ovl
tvars == <<tr, l, opts, todo, cur, pseq, fseq, status, sent, cfg, act, cnt, last, emit, ovl>>

CcbT == <<64, 12>> \o [i \in 1..22 |-> 0]
AcceptT(c, n) == TRUE
SaveT(c, n) == TRUE
S == INSTANCE Sender WITH B <- 4000, Ccb <- CcbT, MaxBlocks <- 65535,
                          HdrFirst <- FLH + PDH + PSH, HdrNext <- FLH + PDH
I == INSTANCE Ingest WITH Channels <- {0, 2}, Accept <- AcceptT, SaveZ <- SaveT

Meta == Events[Index[tr].a]
Ev == Events[Index[tr].a + l]
More == l < Index[tr].n

\* Without options products are text, sent to the first channel; with -r they
\* are radar products, sent to the third.  The sequence number starts at the
\* milliseconds of the day.
Chan == IF Meta.radar THEN 2 ELSE 0
Dest == IF Meta.dst # "" THEN Meta.dst
        ELSE IF Meta.radar THEN "224.0.1.3:1203" ELSE "224.0.1.1:1201"
Split(n) == <<n \div 65536, n % 65536>>
Seq0 == IF Meta.seq = <<0, 0>> THEN Split(Meta.daysec * 1000 + Meta.msec) ELSE Meta.seq
Pause == IF Meta.rate = 0 THEN 0 ELSE IF Meta.rate < 0 THEN 100
         ELSE IF Meta.rate > 1000 THEN 1 ELSE 1000 \div Meta.rate
Files == [i \in 1..Len(Meta.files) |->
            [ok |-> Meta.files[i].ok, size |-> Meta.files[i].size, text |-> Meta.files[i].text]]

Init == /\ tr \in 1..Len(Index) /\ l = 1
        /\ S!Init([start |-> Meta.fstart, type |-> IF Meta.radar THEN 5 ELSE 4], Files, Seq0)
        /\ I!Init /\ cfg = 0

Lower4(n) == 4 * (n % 16)       \* header length in the version byte
\* the parts of the headers that the receiver does not look at
Headers(b, x) ==
  /\ Byte(b, 0) = 255 /\ Lower4(Byte(b, 2)) = FLH /\ Lower4(Byte(b, 16)) = PDH
  /\ B16(b, 18) = x.len
  /\ x.f.start => /\ B16(b, 32 + 6) = PSH
                  /\ Byte(b, 32 + 5) % 8 = 3 + (IF x.f.end THEN 4 ELSE 0)
                  /\ B16(b, 32 + 2) = 0
Same(d, f) == /\ d.k = "data"
              /\ \A k \in DOMAIN f : d[k] = f[k]

SameProduct(p, o) ==
  /\ "error" \notin DOMAIN o
  /\ o.seq = p.seq /\ o.orig = p.orig /\ o.ch = p.ch /\ o.ok = p.ok
  /\ o.type = p.type /\ o.cat = p.cat /\ o.code = p.code
  /\ o.nf = p.nf /\ o.rf = p.rf /\ o.ds = p.ds
  /\ o.fname = p.name.fname /\ o.base = BaseName(p.name, p.seq)
  /\ p.ok => (o.ccb = p.ccb /\ o.unz = p.unz /\ o.body = p.body)
SameEmit == /\ Len(Ev.emit) = Len(emit')
            /\ \A i \in 1..Len(emit') : SameProduct(emit'[i], Ev.emit[i])

NotExplained == FreeAt = 0 \/ l <= FreeAt
Step(A) == More /\ A /\ l' = l + 1 /\ UNCHANGED tr

\* the frame number is the only thing the sender may choose
TFrame == Step(/\ Ev.e = "F" /\ ~Ev.lost
               /\ S!Send(FALSE)
               /\ LET d == Decode(Ev.b, <<>>) IN
                  /\ l = FreeAt \/ (Same(d, sent'.f) /\ Headers(Ev.b, sent'))
                  /\ l = FreeAt \/ (Ev.dst = Dest /\ Ev.pause = Pause)
                  /\ I!Frame(Chan, d)
               /\ l = FreeAt \/ (SameEmit /\ cnt' = Ev.cnt))
\* complete products are the files themselves
FilesAreProducts ==
  \A i \in 1..Len(emit) : emit[i].ok => emit[i].body = CcbT \o sent.file.text

TLost == Step(/\ Ev.e = "F" /\ Ev.lost
              /\ S!Send(TRUE)
              /\ l = FreeAt \/ Same(Decode(Ev.b, <<>>), sent'.f)
              /\ emit' = <<>> /\ UNCHANGED <<cfg, act, cnt, last, ovl>>)
TSkip == /\ S!Skip /\ emit' = <<>> /\ UNCHANGED <<tr, l, cfg, act, cnt, last, ovl>>
\* a whole file of very many blocks, summarized
TBig == Step(/\ Ev.e = "B" /\ cur = S!NoFile /\ todo # <<>> /\ S!Usable(Head(todo))
             /\ LET f == Head(todo)
                IN
                \/ l = FreeAt
                \/ /\ Ev.n \in S!Counts(f) /\ Ev.nf = Ev.n /\ Ev.consistent = 1 /\ Ev.n <= 65535
                   /\ Ev.lastlen = 24 + f.size - 4000 * (Ev.n - 1)
                   /\ Ev.ends = 1 /\ Ev.starts = 1
             /\ todo' = Tail(todo) /\ pseq' = WordInc(pseq) /\ fseq' = Ev.lastnum
             /\ sent' = S!NoFrame /\ emit' = <<>>
             /\ UNCHANGED <<opts, cur, status, cfg, act, cnt, last, ovl>>)
TExit == Step(/\ Ev.e = "X" /\ S!Finished
              /\ l = FreeAt \/ Ev.status = status
              /\ UNCHANGED <<opts, todo, cur, pseq, fseq, status, sent, cfg, act, cnt, last, emit, ovl>>)
Done == ~More /\ UNCHANGED tvars
Next == TFrame \/ TLost \/ TSkip \/ TBig \/ TExit \/ Done
Spec == Init /\ [][Next]_tvars
=============================================================================
