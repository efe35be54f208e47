---------------------------- MODULE TraceFilters -----------------------------
(* Validates recorded histories of the filter server.                         *)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC
CONSTANTS TraceFile, IndexFile, FreeAt
Events == ndJsonDeserialize(TraceFile)
Index  == ndJsonDeserialize(IndexFile)
VARIABLES tr, l, s, nost
vars == <<tr, l, s, nost>>
Meta == Events[Index[tr].a]
Ev == Events[Index[tr].a + l]
More == l < Index[tr].n
Free == l = FreeAt
NotExplained == FreeAt = 0 \/ l <= FreeAt
SetOf(q) == {q[i] : i \in 1..Len(q)}
System == SetOf(Meta.system)
Room(i) == Meta.room[i]
Startable(p) == p \notin nost
F == INSTANCE Filters
P == INSTANCE Packet WITH NameField <- 19, Id <- 2
Dir == SetOf(Meta.dir)
Adv == l' = l + 1 /\ UNCHANGED tr
Init == tr \in 1..Len(Index) /\ l = 1 /\ s = F!Nothing /\ nost = {}

RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Dec(n \div 10), 48 + (n % 10))
Sp == <<32>>
\* what a program reads: one line; with the memory spool, also the size
Line(k) == LET p == Meta.prods[k] IN
           p.dec \o Sp \o Dec(p.type) \o Sp \o Dec(p.cat) \o Sp \o Dec(p.code) \o Sp \o Dec(p.ch) \o Sp \o p.fname \o Sp \o p.fpath
           \o (IF Meta.mem THEN Sp \o Dec(p.stored) ELSE <<>>) \o <<10>>
Text(k) == IF k = F!Quit THEN <<10>> ELSE Line(k)
RECURSIVE Lines(_)
Lines(q) == IF q = <<>> THEN <<>> ELSE Text(Head(q)) \o Lines(Tail(q))
Packet(k) == P!Pack(Meta.prods[k], Meta.pathsize)
RECURSIVE Packets(_)
Packets(q) == IF q = <<>> THEN <<>> ELSE Packet(Head(q)) \o Packets(Tail(q))

Ok == Free \/ (Ev.st = 0 /\ Ev.hung = 0)
Same == UNCHANGED nost
World == /\ More /\ Ev.e \in {"mk", "rm", "ro", "rc", "kill"} /\ Ok
         /\ s' = CASE Ev.e = "mk" -> F!Make(s, Ev.p, Ev.k, Ev.ino)
                   [] Ev.e = "rm" -> F!Unlink(s, Ev.p)
                   [] Ev.e = "ro" -> F!Reader(s, Ev.p, TRUE)
                   [] Ev.e = "rc" -> F!ReaderOf(s, Ev.ino, FALSE)
                   [] Ev.e = "kill" -> IF Ev.run = 0 THEN s ELSE F!Dies(s, Ev.p, Ev.run)
         /\ Same /\ Adv
Starts == /\ More /\ Ev.e \in {"nostart", "start"} /\ Ok
          /\ nost' = IF Ev.e = "start" THEN nost \ {Ev.p} ELSE nost \cup {Ev.p}
          /\ UNCHANGED s /\ Adv
Go == More /\ Ev.e = "go" /\ Ok /\ s' = F!Start(s, Dir) /\ Same /\ Adv
Reload == More /\ Ev.e = "reload" /\ Ok /\ s' = F!Reload(s, Dir) /\ Same /\ Adv
Stop == More /\ Ev.e = "quit" /\ Ok /\ s' = F!Stop(s) /\ Same /\ Adv
Announce == /\ More /\ Ev.e = "prod" /\ Ok
            /\ Free \/ Ev.w <= Meta.timeout * Cardinality(F!WaitedFor(s))
            /\ s' = F!Announce(s, Ev.pid) /\ Same /\ Adv
Read == /\ More /\ Ev.e = "rd" /\ Ok
        /\ Free \/ Ev.b = Packets(F!Taken(s, Ev.ino, Ev.max))
        /\ s' = F!Take(s, Ev.ino, Ev.max) /\ Same /\ Adv
\* a program is run as often as it must be; the end comes when it was told
Program == /\ More /\ Ev.e = "pr" /\ Ev.p # "" /\ Ok
           /\ Ev.p \in DOMAIN s.run /\ Ev.run \in 1..Len(s.run[Ev.p])
           /\ Free \/ (Ev.b = Lines(s.run[Ev.p][Ev.run].buf) /\ ((Ev.end = 1) <=> s.run[Ev.p][Ev.run].closed))
           /\ s' = F!Reads(s, Ev.p, Ev.run) /\ Same /\ Adv
Runs == /\ More /\ Ev.e = "pr" /\ Ev.p = "" /\ Ok
        /\ Free \/ (SetOf(Ev.rows) = UNION {{<<p, k>> : k \in 1..Len(s.run[p])} : p \in DOMAIN s.run})
        /\ UNCHANGED s /\ Same /\ Adv
Store == More /\ Ev.e = "store" /\ Ok /\ UNCHANGED s /\ Same /\ Adv
Report == /\ More /\ Ev.e = "report" /\ Ok
          /\ Free \/ (SetOf(Ev.rows) = F!Report(s) /\ Len(Ev.rows) = Cardinality(DOMAIN s.list))
          /\ s' = F!Reported(s) /\ Same /\ Adv
Done == ~More /\ UNCHANGED vars
Next == World \/ Starts \/ Go \/ Reload \/ Stop \/ Announce \/ Read \/ Program \/ Runs \/ Store \/ Report \/ Done
Spec == Init /\ [][Next]_vars
Alias == [tr |-> tr, l |-> l, list |-> s.list, fifo |-> s.fifo, run |-> s.run,
          rows |-> F!Report(s)]
==============================================================================
