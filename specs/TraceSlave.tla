----------------------------- MODULE TraceSlave -----------------------------
(* Validates recorded runs of the slave readers, of the input fifo and of the *)
(* configuration of both.                                                     *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, TLC
CONSTANTS TraceFile, IndexFile, FreeAt
Events == ndJsonDeserialize(TraceFile)
Index  == ndJsonDeserialize(IndexFile)
VARIABLES tr, l, act, open, prods, exists
vars == <<tr, l, act, open, prods, exists>>
Meta == Events[Index[tr].a]           \* what the configuration of the run says
Ev == Events[Index[tr].a + l]
More == l < Index[tr].n
Free == l = FreeAt
NotExplained == FreeAt = 0 \/ l <= FreeAt
IsPrefixOf(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
RefuseT(n) == \E i \in 1..Len(Meta.refuse) : IsPrefixOf(Meta.refuse[i], n)
ExpandT(n) == \E i \in 1..Len(Meta.expand) : IsPrefixOf(Meta.expand[i], n)
FilterQ(n) == ~\E i \in 1..Len(Meta.nofilter) : IsPrefixOf(Meta.nofilter[i], n)
ServerQ(n) == ~\E i \in 1..Len(Meta.noserver) : IsPrefixOf(Meta.noserver[i], n)
N == INSTANCE SlaveNbs WITH Refuse <- RefuseT, Expand <- ExpandT
F == INSTANCE Infifo WITH MaxText <- 65536, MaxName <- 18, MaxBase <- 36, MaxPath <- Meta.maxpath
P == INSTANCE Packet WITH NameField <- 19, Id <- 2
T == INSTANCE SlaveTable
Slaves == 0..7
Adv == l' = l + 1 /\ UNCHANGED tr
Init == tr \in 1..Len(Index) /\ l = 1 /\ act = [s \in Slaves |-> N!Idle] /\ open = [s \in Slaves |-> FALSE] /\ prods = <<>> /\ exists = {}

Prod == /\ More /\ Ev.e = "prod"
        /\ Free \/ (/\ Ev.st = 0 /\ Ev.same /\ Len(Ev.hdr) = N!Blocks(Ev.size)
                    /\ \A k \in 1..Len(Ev.hdr) : N!HeaderOk(Ev.hdr[k], Ev, k) /\ Ev.len[k] = N!HeadSize + N!SizeOf(Ev.size, k))
        /\ Adv /\ UNCHANGED <<act, open, prods, exists>>
Conn == More /\ Ev.e = "conn" /\ Adv /\ open' = [open EXCEPT ![Ev.s] = TRUE] /\ UNCHANGED <<act, prods, exists>>
Dup == More /\ Ev.e = "dup" /\ Adv /\ exists' = exists \cup {Ev.path} /\ UNCHANGED <<act, open, prods>>
\* the connection is closed, and nothing else happens
Nothing == Ev.st = 1 /\ Ev.out = <<>> /\ Ev.tx = 0 /\ Ev.mi = 0 /\ Ev.co = 0 /\ Ev.re = 0
Eof == /\ More /\ Ev.e = "eof" /\ (Free \/ Nothing) /\ Adv /\ open' = [open EXCEPT ![Ev.s] = FALSE] /\ UNCHANGED <<act, prods, exists>>
SameOut(o, x) == /\ (o.fc = 1) = x.ok /\ o.seq = x.seq /\ o.name = x.name
                 /\ x.ok => /\ o.codes = x.codes /\ o.fname = N!FName(x.name) /\ o.path = N!Path(x.name) /\ o.parts = x.parts
                            /\ (x.unz => o.zs = x.zs) /\ (~x.unz => o.zs = <<>>)
Pkt == /\ More /\ Ev.e = "pkt" /\ open[Ev.s]
       /\ IF ~N!Sound(Ev.h, Ev.n, Ev.len)
          THEN /\ Free \/ Nothing
               /\ open' = [open EXCEPT ![Ev.s] = FALSE] /\ UNCHANGED act
          ELSE LET r == N!Take(act[Ev.s], N!Unpacked(Ev.h, Ev.part), exists, Meta.dup) IN
               /\ Free \/ (/\ Ev.st = r.e.st /\ Ev.tx = r.e.tx /\ Ev.mi = r.e.mi /\ Ev.co = r.e.co /\ Ev.re = r.e.re
                           /\ Len(Ev.out) = Len(r.e.out) /\ \A i \in 1..Len(Ev.out) : SameOut(Ev.out[i], r.e.out[i]))
               /\ act' = [act EXCEPT ![Ev.s] = r.a] /\ UNCHANGED open
       /\ Adv /\ UNCHANGED <<prods, exists>>
\* ---- announcements
Ann(f) == [seq |-> f.seq, codes |-> f.codes, fname |-> f.fname, path |-> f.path]
Queued(q, f, want) == q = IF want THEN <<f>> ELSE <<>>
Nbs2 == /\ More /\ Ev.e = "n2" /\ open[Ev.s]
        /\ LET x == P!Receive(Ev.bytes, Meta.maxpacket) IN
           IF x = <<>> THEN /\ Free \/ (Ev.st = 1 /\ Ev.fq = <<>> /\ Ev.sq = <<>>)
                            /\ open' = [open EXCEPT ![Ev.s] = FALSE]
           ELSE LET f == [seq |-> x[1].seq, codes |-> <<x[1].type, x[1].cat, x[1].code, x[1].ch>>, fname |-> x[1].fname, path |-> x[1].fpath] IN
                /\ Free \/ (Ev.st = 0 /\ Queued(Ev.fq, f, FilterQ(f.fname)) /\ Queued(Ev.sq, f, ServerQ(f.fname)))
                /\ UNCHANGED open
        /\ Adv /\ UNCHANGED <<act, prods, exists>>
Fifo == More /\ Ev.e = "fifo" /\ Adv /\ open' = [open EXCEPT ![7] = TRUE] /\ UNCHANGED <<act, prods, exists>>
\* a record: size is what it says, len the bytes of its text and end that are there
Took(f) == Ev.st = 0 /\ Queued(Ev.fq, f, FilterQ(f.fname)) /\ Queued(Ev.sq, f, ServerQ(f.fname))
Skipped == Ev.st = 2 /\ Ev.fq = <<>> /\ Ev.sq = <<>>
Lost == Ev.st = 1 /\ Ev.fq = <<>> /\ Ev.sq = <<>>
Rec == /\ More /\ Ev.e = "rec" /\ open[7]
       /\ IF ~Ev.framed
          THEN (Free \/ Lost) /\ open' = [open EXCEPT ![7] = FALSE]
          ELSE /\ UNCHANGED open
               /\ Free \/ (LET c == F!Class(Ev.text) IN
                    CASE c = "good" -> Took(F!Fields(Ev.text))
                      [] c = "bad" -> Skipped
                      [] OTHER -> Skipped \/ (Ev.st = 0 /\ Len(Ev.fq) <= 1 /\ Len(Ev.sq) <= 1))
       /\ Adv /\ UNCHANGED <<act, prods, exists>>
\* records of concurrent inserters: what was announced, by inserter and in order
Of(q, w) == SelectSeq(q, LAMBDA f : IsPrefixOf(w, f.fname))
Inserted == /\ More /\ Ev.e = "ins"
            /\ Free \/ (/\ \A w \in 1..Len(Ev.writers) : Of(Ev.fq, Ev.writers[w].name) = Ev.writers[w].recs /\ Of(Ev.sq, Ev.writers[w].name) = Ev.writers[w].recs
                        /\ Len(Ev.fq) = FoldLeft(LAMBDA a, w : a + Len(w.recs), 0, Ev.writers))
            /\ Adv /\ UNCHANGED <<act, open, prods, exists>>
\* the inserter alone: whether it accepts its arguments, what it writes and saves
Insert1 == /\ More /\ Ev.e = "arg"
           /\ Free \/ LET good == /\ F!Plain(Ev.w[1]) /\ F!Halves(Ev.w[1]) /= <<-1>> /\ \A i \in 2..5 : F!Byte(Ev.w[i]) IN
                /\ good => /\ Ev.rc = 0 /\ Ev.saved
                           /\ LET t == FoldLeft(LAMBDA a, w : a \o <<32>> \o w, Ev.w[1], Tail(Ev.w)) IN Ev.fifo = N!Be4(N!IntWord(Len(t))) \o t \o <<10>>
                /\ (\E i \in 1..5 : F!NotANumber(Ev.w[i]) \/ (i > 1 /\ F!TooLarge(Ev.w[i]))) => Ev.rc /= 0 /\ Ev.fifo = <<>>
           /\ Adv /\ UNCHANGED <<act, open, prods, exists>>
\* ---- configuration
Tab == /\ More /\ Ev.e = "tab"
       /\ Free \/ (LET x == T!Table(Ev.mode, Ev.infifo, Ev.masters, Meta.d) IN
             /\ Ev.ok = x.ok
             /\ x.ok => (Ev.nr = x.nr /\ Len(Ev.t) = Len(x.t) /\ \A i \in 1..Len(x.t) : Ev.t[i] = x.t[i]))
       /\ Adv /\ UNCHANGED <<act, open, prods, exists>>
\* ---- the connections of one slave, as its master sees them: each is a
\* hello, the products sent whole or the first bytes of them, and how it ended.
\* "ends": "close" by the master, "silence", "damage" or "stop" of the slave
Hello(type) == IF type = 1 THEN <<78, 66, 83, 49>> ELSE <<78, 66, 83, 50>>
Session == /\ More /\ Ev.e = "sess"
           /\ Free \/ (/\ Ev.hello = Hello(Ev.type)
                       /\ Ev.gap >= Ev.wait * 1000 - 50            \* since the end of the one before
                       /\ Ev.gap <= Ev.wait * 1000 + Ev.slack
                       /\ Ev.got = Ev.sent
                       /\ Ev.ends \in {"silence", "damage"} => Ev.closed
                       /\ Ev.ends = "silence" => (Ev.quiet >= Ev.timeout * 1000 - 50 /\ Ev.quiet <= Ev.timeout * 1000 + Ev.slack))
           /\ Adv /\ UNCHANGED <<act, open, prods, exists>>
Done == ~More /\ UNCHANGED vars
Next == Prod \/ Conn \/ Dup \/ Eof \/ Pkt \/ Nbs2 \/ Fifo \/ Rec \/ Inserted \/ Insert1 \/ Tab \/ Session \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
