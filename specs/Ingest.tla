------------------------------- MODULE Ingest -------------------------------
(***************************************************************************)
(* Assembly of products from SBN frames, one product at a time on each     *)
(* channel (framep.c, pctl.c).  One action per received frame: that is the *)
(* grain of the code (sbnframeproc), each channel being owned by one       *)
(* reader thread.                                                          *)
(*                                                                         *)
(* A frame f is a record as built by SbnWire!Decode.                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Channels,          \* channel indexes
          Accept(_, _),      \* is a name taken at ingest, under a configuration
          SaveZ(_, _)        \* is a compressed product of that name kept compressed

VARIABLES cfg,      \* the configured name patterns (never changes)
          act,      \* act[ch]: product being assembled, or Idle
          cnt,      \* event counters
          last,     \* last[ch]: sequence number of the last frame seen
          emit,     \* products handed to the processing queue by this step
          ovl       \* high load retransmission condition in force

ivars == <<cfg, act, cnt, last, emit, ovl>>

W0 == <<0, 0>>
Less(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Inc(a) == IF a[2] < 65535 THEN <<a[1], a[2] + 1>>
          ELSE IF a[1] < 65535 THEN <<a[1] + 1, 0>> ELSE W0

Idle == [seq |-> "idle"]
IsActive(p) == p # Idle

Cnt0 == [recv |-> 0, good |-> 0, jump |-> 0, bad |-> 0, tx |-> 0, rtx |-> 0,
         done |-> 0, missed |-> 0, abort |-> 0, rej |-> 0]

Bump(c, k) == [c EXCEPT ![k] = @ + 1]

Init == /\ act = [c \in Channels |-> Idle]
        /\ cnt = Cnt0
        /\ last = [c \in Channels |-> W0]
        /\ emit = <<>>
        /\ ovl = FALSE

(***************************************************************************)
(* What happens to a channel is computed in three stages as in the code:   *)
(* START, PROGRESS, END.  A stage result is [p, c, e, go]: the active      *)
(* product, the counters, what was emitted, and whether to go on.          *)
(***************************************************************************)
St(p, c, e, go) == [p |-> p, c |-> c, e |-> e, go |-> go]

Drop(p) == [p EXCEPT !.ok = FALSE]           \* hand over as incomplete

NewProduct(ch, f) ==
  [seq |-> f.seq, orig |-> f.orig, ch |-> ch, ds |-> f.ds, type |-> f.type,
   cat |-> f.cat, code |-> f.code, nf |-> IF f.nf = 0 THEN 1 ELSE f.nf,
   rf |-> 0, ok |-> FALSE, ccb |-> f.ccb, name |-> f.name,
   unz |-> f.z /\ ~SaveZ(cfg, f.name) /\ Len(f.ctrl) # 0 /\ Len(f.ctrl) <= 58,
   body |-> <<>>]

StartStage(ch, f, s) ==
  IF ~f.start THEN s
  ELSE LET c1 == IF f.rtx THEN Bump(s.c, "rtx") ELSE s.c IN
  IF f.blk # 0 THEN St(s.p, c1, s.e, FALSE)
  ELSE
  LET c2 == Bump(c1, "tx")
      c3 == IF IsActive(s.p) THEN Bump(c2, "missed") ELSE c2
      e3 == IF IsActive(s.p) THEN Append(s.e, Drop(s.p)) ELSE s.e
  IN IF ~f.name.ok THEN St(Idle, Bump(c3, "missed"), e3, FALSE)
     ELSE IF ~Accept(cfg, f.name) \/ (f.orig # W0 /\ ovl)
          THEN St(Idle, Bump(c3, "rej"), e3, FALSE)
     ELSE St(NewProduct(ch, f), c3, e3, TRUE)

\* What one block contributes to the product: its data, preceded in the
\* first block by the control header unless the product is to be expanded.
Piece(p, f) == IF p.unz THEN <<[z |-> f.z, d |-> f.data]>>
               ELSE IF f.blk = 0 THEN f.ctrl \o f.data ELSE f.data

ProgStage(ch, f, s) ==
  IF ~s.go \/ ~f.prog THEN s
  ELSE IF ~IsActive(s.p) THEN s
  ELSE IF s.p.seq # f.seq THEN s
  ELSE IF f.blk = s.p.rf
       THEN St([s.p EXCEPT !.rf = @ + 1, !.body = @ \o Piece(s.p, f)], s.c, s.e, TRUE)
       ELSE St(Idle, Bump(s.c, "missed"), Append(s.e, Drop(s.p)), FALSE)

EndStage(ch, f, s) ==
  IF ~s.go \/ ~f.end THEN s
  ELSE IF ~IsActive(s.p) THEN s
  ELSE IF s.p.seq # f.seq \/ s.p.rf < s.p.nf
       THEN St(Idle, Bump(s.c, "missed"), Append(s.e, Drop(s.p)), TRUE)
       ELSE St(Idle, Bump(s.c, "done"), Append(s.e, [s.p EXCEPT !.ok = TRUE]), TRUE)

Jumped(ch, f) == last[ch] # W0 /\ Less(Inc(last[ch]), f.sbnseq)

DataFrame(ch, f) ==
  LET c0 == Bump(Bump(cnt, "recv"), "good")
      c1 == IF Jumped(ch, f) THEN Bump(c0, "jump") ELSE c0
      s0 == St(act[ch], c1, <<>>, TRUE)
      r  == IF f.err THEN St(Idle, Bump(c1, "abort"), <<>>, TRUE)
            ELSE EndStage(ch, f, ProgStage(ch, f, StartStage(ch, f, s0)))
  IN /\ f.k = "data"
     /\ act' = [act EXCEPT ![ch] = r.p]
     /\ cnt' = r.c
     /\ emit' = r.e
     /\ last' = [last EXCEPT ![ch] = f.sbnseq]
     /\ UNCHANGED <<cfg, ovl>>

\* Test messages, timing commands, and first blocks that cannot be expanded.
NoProductFrame(ch, f) ==
  LET c0 == Bump(Bump(cnt, "recv"), "good") IN
  /\ f.k \in {"nondata", "unzerr"}
  /\ cnt' = IF Jumped(ch, f) THEN Bump(c0, "jump") ELSE c0
  /\ last' = [last EXCEPT ![ch] = f.sbnseq]
  /\ emit' = <<>>
  /\ UNCHANGED <<cfg, act, ovl>>

BadFrame(ch, f) ==
  /\ f.k = "bad"
  /\ cnt' = Bump(Bump(cnt, "recv"), "bad")
  /\ emit' = <<>>
  /\ UNCHANGED <<cfg, act, last, ovl>>

Frame(ch, f) == DataFrame(ch, f) \/ NoProductFrame(ch, f) \/ BadFrame(ch, f)

SetOverload(v) == ovl' = v /\ emit' = <<>> /\ UNCHANGED <<cfg, act, cnt, last>>

(***************************************************************************)
(* Properties.                                                             *)
(***************************************************************************)
NumActive == Cardinality({c \in Channels : IsActive(act[c])})

\* C03 every started product has one accounted outcome (aborts of idle
\* channels are counted too, so the abort count is only an upper bound)
Accounting ==
  /\ cnt.tx <= cnt.done + cnt.missed + cnt.rej + cnt.abort + NumActive
  /\ cnt.tx >= cnt.done + cnt.missed + cnt.rej + NumActive
FrameAccounting == cnt.recv = cnt.good + cnt.bad
=============================================================================
