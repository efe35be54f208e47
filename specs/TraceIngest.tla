---------------------------- MODULE TraceIngest ----------------------------
(* Validates recorded runs of the frame processor against Ingest. *)
EXTENDS SbnWire, Integers, Json, TLCExt

CONSTANT TraceFile, IndexFile,
         FreeAt     \* 0, or the event whose observations are not compared (to explain a rejection)
Events == ndJsonDeserialize(TraceFile)
Index  == ndJsonDeserialize(IndexFile)

VARIABLES tr, l, cfg, act, cnt, last, emit, ovl
tvars == <<tr, l, cfg, act, cnt, last, emit, ovl>>

(* Which names are accepted and which are kept compressed is part of the
   input of a run: prefixes of the lower case name. *)
IsPrefixOf(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
Meta == Events[Index[tr].a]              \* first line of each trace
AcceptN(c, n) == \A i \in 1..Len(c.reject) : ~IsPrefixOf(c.reject[i], n.fname)
SaveZN(c, n) == \A i \in 1..Len(c.expand) : ~IsPrefixOf(c.expand[i], n.fname)

I == INSTANCE Ingest WITH Channels <- 0..8, Accept <- AcceptN, SaveZ <- SaveZN

Ev == Events[Index[tr].a + l]
More == l < Index[tr].n

Init == /\ tr \in 1..Len(Index)
        /\ l = 1
        /\ I!Init
        /\ cfg = [reject |-> Meta.reject, expand |-> Meta.expand]

\* A complete product must be handed over with exactly this content and these
\* attributes; of an incomplete one only the identification matters.
SameProduct(p, o) ==
  /\ "error" \notin DOMAIN o
  /\ o.seq = p.seq /\ o.orig = p.orig /\ o.ch = p.ch /\ o.ok = p.ok
  /\ o.type = p.type /\ o.cat = p.cat /\ o.code = p.code
  /\ o.nf = p.nf /\ o.rf = p.rf /\ o.ds = p.ds
  /\ o.fname = p.name.fname
  /\ o.base = BaseName(p.name, p.seq)
  /\ o.path = p.name.station \o <<47>> \o BaseName(p.name, p.seq)
  /\ p.ok => (o.ccb = p.ccb /\ o.unz = p.unz /\ o.body = p.body)

SameEmit == /\ Len(Ev.emit) = Len(emit')
            /\ \A i \in 1..Len(emit') : SameProduct(emit'[i], Ev.emit[i])

Observed == l = FreeAt \/ (SameEmit /\ cnt' = Ev.cnt)
NotExplained == FreeAt = 0 \/ l <= FreeAt

Step(A) == More /\ A /\ l' = l + 1 /\ UNCHANGED tr

TFrame == Step(/\ Ev.e = "F"
               /\ I!Frame(Ev.ch, Decode(Ev.b, Ev.unz))
               /\ Observed)
TOvl == Step(Ev.e = "O" /\ I!SetOverload(Ev.v) /\ Observed)
\* the readers, once throttled (2), stay throttled until the load is below the soft limit
LastLoad == LET s == {i \in 1..(l-1) : Events[Index[tr].a + i].e = "L"}
            IN IF s = {} THEN 0 ELSE Events[Index[tr].a + (CHOOSE i \in s : \A j \in s : j <= i)].f
TLoad == Step(/\ Ev.e = "L"
              /\ LET lv == Ev.load \div 100
                     f == IF Ev.hard > 0 /\ lv >= Ev.hard THEN 2
                          ELSE IF Ev.soft > 0 /\ lv >= Ev.soft THEN (IF LastLoad = 2 THEN 2 ELSE 1) ELSE 0
                     r == f > 0 /\ Ev.lim > 0 /\ Ev.idx >= Ev.lim
                 IN Ev.f = f /\ Ev.r = (IF r THEN 1 ELSE 0)
              /\ ovl' = (Ev.r = 1) /\ emit' = <<>> /\ UNCHANGED <<cfg, act, cnt, last>>)
Done == ~More /\ UNCHANGED tvars
Next == TFrame \/ TOvl \/ TLoad \/ Done
Spec == Init /\ [][Next]_tvars
=============================================================================
