--------------------------- MODULE TraceProcessor ---------------------------
(***************************************************************************)
(* Validates recorded runs of the daemon from the frames to the stored and *)
(* announced products: Ingest composed with Processor.  Each trace begins  *)
(* with a start "R"; further ones are restarts on the same directories.    *)
(***************************************************************************)
EXTENDS SbnWire, Integers, FiniteSets, Json

CONSTANT TraceFile, IndexFile, FreeAt
Events == ndJsonDeserialize(TraceFile)
Index  == ndJsonDeserialize(IndexFile)

VARIABLES tr, l, cfg, act, cnt, last, emit, ovl, s, c, files, data, env, n
ivars == <<cfg, act, cnt, last, emit, ovl>>
pvars == <<s, c, files, data, env, n>>
tvars == <<tr, l, ivars, pvars>>

IsPrefixOf(p, t) == Len(p) <= Len(t) /\ SubSeq(t, 1, Len(p)) = p
Accepted(rej, fname) == \A i \in 1..Len(rej) : ~IsPrefixOf(rej[i], fname)
AcceptN(g, nm) == Accepted(g.reject, nm.fname)
SaveZN(g, nm) == Accepted(g.expand, nm.fname)
Meta == Events[Index[tr].a]        \* what does not change in a trace
I == INSTANCE Ingest WITH Channels <- 0..8, Accept <- AcceptN, SaveZ <- SaveZN
P == INSTANCE Processor

View == <<tr, l>>              \* the trace determines everything else

\* what is printed of a rejected trace
Alias == [tr |-> tr, l |-> l, expected |-> IF l > FreeAt /\ FreeAt > 0
           THEN <<emit, n, env, Cardinality(files)>> ELSE <<>>]

Ev == Events[Index[tr].a + l]
More == l < Index[tr].n
Free == l = FreeAt
NotExplained == FreeAt = 0 \/ l <= FreeAt
Adv == l' = l + 1 /\ UNCHANGED tr
SLOTSMIN == 1024
W0 == <<0, 0>>

NoRing == [n |-> 0]
Q0(hard) == [held |-> FALSE, hard |-> hard, q |-> <<>>]
N0 == [bad |-> 0, c |-> 0, ip |-> 0, i |-> 0, slack |-> 0, r |-> 0]
\* what decompressing gives, of every compressed block of the trace
Uz == LET z == Meta.zs IN
      [d \in {z[i].d : i \in 1..Len(z)} |-> LET k == CHOOSE i \in 1..Len(z) : z[i].d = d IN IF z[k].ok THEN <<z[k].u>> ELSE <<>>]
Base(p) == BaseName(p.name, p.seq)
Path(p) == p.name.station \o <<47>> \o Base(p)
Num(k) == Decimal(<<0, k>>)
LogLine(p) == << <<116, 115>>, Decimal(p.seq), Num(p.type), Num(p.cat), Num(p.code), Num(p.ch), Base(p)>>
LogRtx(p) == Append(LogLine(p), Decimal(p.orig))

(***************************************************************************)
(* The packet of an announcement: envelope (identifier 2, size, checksum), *)
(* sequence number, type, category, code, channel, name, path.             *)
(***************************************************************************)
ENV == 12
FN == 18
CStr(b, i) == LET e == CHOOSE k \in i..(Len(b) + 1) : (k = Len(b) + 1 \/ b[k] = 0) /\ \A j \in i..(k-1) : b[j] # 0
              IN SubSeq(b, i, e - 1)
IsAnnouncement(b, p) ==
  /\ Len(b) > ENV + 8 + FN + 1
  /\ B32(b, 0) = <<0, 2>> /\ B32(b, 4) = <<0, Len(b) - ENV>>
  /\ B32(b, 8) = <<SumTo(SubSeq(b, ENV + 1, Len(b)), Len(b) - ENV) \div 65536, SumTo(SubSeq(b, ENV + 1, Len(b)), Len(b) - ENV) % 65536>>
  /\ LET d == SubSeq(b, ENV + 1, Len(b)) IN
     /\ B32(d, 0) = p.seq
     /\ d[5] = p.type /\ d[6] = p.cat /\ d[7] = p.code % 256 /\ d[8] = p.ch
     /\ CStr(d, 9) = p.name.fname
     /\ CStr(d, 9 + FN + 1) = Meta.dir \o <<47>> \o Path(p)
     /\ d[Len(d)] = 0
\* A queue that nobody takes from: refuses what is beyond its hard limit.
Pending(k, on, p) == IF on /\ k.held /\ (k.hard = 0 \/ Len(k.q) < k.hard) THEN [k EXCEPT !.q = Append(@, p)] ELSE k
AllAnnounced(q, k) == Len(q) = Len(k.q) /\ \A i \in 1..Len(q) : IsAnnouncement(q[i], k.q[i])
Announced(q, yes, p) == IF yes THEN Len(q) = 1 /\ IsAnnouncement(q[1], p) ELSE q = <<>>

EnvOf(p, fails, blocked) ==
  [remember |-> Accepted(Meta.rtx, p.name.fname), filter |-> Accepted(Meta.filter, p.name.fname),
   server |-> Accepted(Meta.server, p.name.fname), canstore |-> p.name.station \notin blocked, fails |-> fails]

SetOf(q) == {q[i] : i \in 1..Len(q)}
\* x = [s, files, data, fails, n, ok]
One(x, p, ob) ==
  LET e == EnvOf(p, x.fails, env.blocked)
      r == P!Process(x.s, c, p, e, Path(p), Base(p), Uz)
      o == r.o
      f2 == IF ~c.fs \/ ~o.stored THEN x.files ELSE (x.files \ {o.evict}) \cup {Path(p)}
      came == IF c.fs /\ o.stored /\ Path(p) \notin x.files THEN {Path(p)} ELSE {}
      went == IF c.fs /\ o.stored /\ o.evict # Path(p) /\ o.evict \in x.files THEN {o.evict} ELSE {}
      d2 == IF ~c.fs \/ ~o.stored \/ ~Meta.small THEN x.data
            ELSE [q \in f2 |-> IF q = Path(p) THEN o.d ELSE x.data[q]]
      undecided == p.ok /\ p.orig # W0 /\ e.remember /\ ~x.s.rtx.on /\ ~c.default
      n2 == [bad |-> x.n.bad + o.bad, c |-> x.n.c + o.c, ip |-> x.n.ip + o.ip, i |-> x.n.i + o.i,
             slack |-> x.n.slack + (IF undecided THEN 1 ELSE 0), r |-> x.n.r + o.r]
      held == IF c.fs THEN IF Path(p) \in f2 THEN IF Meta.small THEN <<d2[Path(p)]>> ELSE IF o.stored THEN <<o.d>> ELSE <<ob.spool.d>> ELSE <<>>
              ELSE P!S!Find(r.s.mem, Base(p))
      good == /\ ob.seq = p.seq
              /\ (ob.st = 0) = (o.bad = 0)
              /\ ob.cnt[1] = n2.bad /\ ob.cnt[2] = n2.c /\ ob.cnt[3] + ob.cnt[4] = n2.ip /\ ob.cnt[5] = n2.r
              /\ ob.cnt[3] >= n2.i /\ ob.cnt[3] <= n2.i + n2.slack
              /\ IF held = <<>> THEN ob.spool.st = -2 ELSE ob.spool.st = 0 /\ ob.spool.d = held[1]
              /\ SetOf(ob.new) = came /\ SetOf(ob.gone) = went /\ ob.nfiles = Cardinality(f2)
              /\ ob.missing = (IF o.missing THEN <<LogLine(p)>> ELSE <<>>)
              /\ ob.rtxlog = (IF o.log THEN <<LogRtx(p)>> ELSE <<>>)
              /\ Announced(ob.fq, o.filter /\ ~x.fk.held, p) /\ Announced(ob.sq, o.server /\ ~x.sk.held, p)
              /\ ob.early = 0
              /\ ob.writes = o.writes
  IN [s |-> r.s, files |-> f2, data |-> d2, n |-> n2,
      fk |-> Pending(x.fk, o.filter, p), sk |-> Pending(x.sk, o.server, p),
      fails |-> x.fails - (IF o.stored /\ ~c.fs THEN o.writes - 1 ELSE o.writes),
      ok |-> x.ok /\ good]
RECURSIVE All(_, _, _, _)
All(x, es, obs, i) == IF i > Len(es) THEN x ELSE All(One(x, es[i], obs[i]), es, obs, i + 1)


Init == /\ tr \in 1..Len(Index) /\ l = 1
        /\ I!Init
        /\ cfg = [reject |-> Meta.reject, expand |-> Meta.expand]
        /\ s = [rtx |-> P!R!New(FALSE, FALSE), ring |-> NoRing, mem |-> P!S!NewMem(1, 0)]
        /\ c = [fs |-> TRUE, strip |-> FALSE, default |-> TRUE, slots |-> 0, up |-> FALSE]
        /\ files = {} /\ data = <<>> /\ env = [fails |-> 0, blocked |-> {}, fk |-> Q0(0), sk |-> Q0(0)] /\ n = N0

Slots(k) == IF k = 0 THEN 0 ELSE IF k < SLOTSMIN THEN SLOTSMIN ELSE k
Start ==
  /\ More /\ Ev.e = "R"
  /\ LET k == IF Ev.fs THEN Slots(Ev.slots) ELSE 0
         refused == k # 0 /\ s.ring.n # 0 /\ ~P!S!CanReopen(s.ring, k)
     IN /\ Free \/ (Ev.st = 0 /\ (Ev.quit # 0) = refused /\ Ev.nfiles = Cardinality(files))
        /\ c' = [fs |-> Ev.fs, strip |-> Ev.strip, default |-> Ev.default, slots |-> k, up |-> ~refused]
        /\ s' = [rtx |-> P!R!Restart(s.rtx, Ev.on, Ev.keep),
                 ring |-> IF refused \/ k = 0 THEN s.ring ELSE IF s.ring.n = 0 THEN P!S!NewRing(k) ELSE P!S!Reopen(s.ring, k),
                 mem |-> P!S!NewMem(Ev.ndb, Ev.max)]
  /\ act' = [h \in 0..8 |-> I!Idle] /\ cnt' = I!Cnt0 /\ last' = [h \in 0..8 |-> I!W0] /\ emit' = <<>> /\ ovl' = FALSE
  /\ env' = [env EXCEPT !.fails = 0, !.fk = Q0(Ev.hard), !.sk = Q0(Ev.hard)] /\ n' = N0
  /\ UNCHANGED <<cfg, files, data>> /\ Adv
FrameEv ==
  /\ More /\ Ev.e = "F" /\ c.up
  /\ I!Frame(Ev.ch, Decode(Ev.b, Ev.unz))
  /\ Free \/ (Ev.stuck = 0 /\ Len(Ev.prods) = Len(emit'))
  /\ LET x == All([s |-> s, files |-> files, data |-> data, fails |-> env.fails, fk |-> env.fk, sk |-> env.sk, n |-> n, ok |-> TRUE], emit', Ev.prods, 1) IN
     /\ Free \/ x.ok
     /\ s' = x.s /\ files' = x.files /\ data' = x.data /\ n' = x.n
     /\ env' = [env EXCEPT !.fails = x.fails, !.fk = x.fk, !.sk = x.sk]
  /\ UNCHANGED c /\ Adv
Truncate == /\ More /\ Ev.e = "T" /\ c.up
            /\ Free \/ Ev.stuck = 0
            /\ s' = [s EXCEPT !.rtx = P!R!Truncate(@)]
            /\ UNCHANGED <<ivars, c, files, data, env, n>> /\ Adv
NoSpace == /\ More /\ Ev.e = "X" /\ c.up
           /\ env' = [env EXCEPT !.fails = Ev.k]
           /\ UNCHANGED <<ivars, s, c, files, data, n>> /\ Adv
Taken(k, hold) == IF hold THEN [k EXCEPT !.held = TRUE] ELSE [k EXCEPT !.held = FALSE, !.q = <<>>]
Hold == /\ More /\ Ev.e = "K" /\ c.up
        /\ Free \/ /\ IF Ev.f THEN Ev.fq = <<>> ELSE AllAnnounced(Ev.fq, env.fk)
                   /\ IF Ev.s THEN Ev.sq = <<>> ELSE AllAnnounced(Ev.sq, env.sk)
        /\ env' = [env EXCEPT !.fk = Taken(@, Ev.f), !.sk = Taken(@, Ev.s)]
        /\ UNCHANGED <<ivars, s, c, files, data, n>> /\ Adv
Block == /\ More /\ Ev.e \in {"B", "U"} /\ c.up
         /\ Ev.stuck = 0
         /\ env' = [env EXCEPT !.blocked = IF Ev.e = "B" THEN @ \cup {Ev.station} ELSE @ \ {Ev.station}]
         /\ UNCHANGED <<ivars, s, c, files, data, n>> /\ Adv
\* an old product is read again
Read == /\ More /\ Ev.e = "G" /\ c.up
        /\ LET h == IF c.fs THEN IF Ev.path \in files THEN <<data[Ev.path]>> ELSE <<>> ELSE P!S!Find(s.mem, Ev.base) IN
           Free \/ IF h = <<>> THEN Ev.spool.st = -2 ELSE Ev.spool.st = 0 /\ Ev.spool.d = h[1]
        /\ UNCHANGED <<ivars, pvars>> /\ Adv
List == /\ More /\ Ev.e = "L"
        /\ Free \/ SetOf(Ev.files) = files
        /\ UNCHANGED <<ivars, pvars>> /\ Adv
Done == ~More /\ UNCHANGED tvars
Next == Start \/ FrameEv \/ Truncate \/ NoSpace \/ Hold \/ Block \/ Read \/ List \/ Done
Spec == Init /\ [][Next]_tvars
=============================================================================
