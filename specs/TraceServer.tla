----------------------------- MODULE TraceServer -----------------------------
(* Validates recorded runs of the server and its clients. The first event of  *)
(* a trace is its configuration, with the products and who may have them.     *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, TLC
CONSTANTS TraceFile, IndexFile, FreeAt
Events == ndJsonDeserialize(TraceFile)
Index  == ndJsonDeserialize(IndexFile)
VARIABLES tr, l, s,
          born,      \* host -> when it connected, from and to
          pend,      \* connection -> what it sent and was not looked at
          mine,      \* connections closed by the clients
          now
vars == <<tr, l, s, born, pend, mine, now>>
Meta == Events[Index[tr].a]
Ev == Events[Index[tr].a + l]
More == l < Index[tr].n
Free == l = FreeAt
NotExplained == FreeAt = 0 \/ l <= FreeAt
ToSet1(q) == {q[i] : i \in 1..Len(q)}
\* ---- who may have what
IsPrefixOf(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
Match(ps, n) == \E i \in 1..Len(ps) : IsPrefixOf(ps[i], n)
Column(p) == CASE p = 1 -> 1 [] p = 2 -> 2 [] OTHER -> 3
SizeT(pid, p) == Meta.prods[pid].size[Column(p)]
Find(q, h) == {i \in 1..Len(q) : q[i][1] = h}
Value(q, h) == IF Find(q, h) = {} THEN -1 ELSE q[CHOOSE i \in Find(q, h) : TRUE][2]
Allowed(h, pid) ==
  \/ ~Meta.netfilter
  \/ LET f == Meta.prods[pid].allow
         byname == IF h \in ToSet1(Meta.named) THEN Value(f.name, h) ELSE -1
         byip == Value(f.ip, h)
         all == IF f.all = -1 THEN 0 ELSE f.all IN
     (IF byname /= -1 THEN byname ELSE IF byip /= -1 THEN byip ELSE all) /= 0
EntitledT(h, p, pid) ==
  /\ ~Match(Meta.refuse[Column(p)], Meta.prods[pid].name)
  /\ p = 4 => Meta.prods[pid].emwin
  /\ Allowed(h, pid)
S == INSTANCE Server WITH Served <- ToSet1(Meta.served), MaxClients <- Meta.max, Retry <- Meta.retry, Hard <- Meta.hard,
                          Denied <- ToSet1(Meta.denied), Size <- SizeT, Entitled <- EntitledT
Init == tr \in 1..Len(Index) /\ l = 1 /\ s = S!Empty /\ born = <<>> /\ pend = <<>> /\ mine = {} /\ now = 0
Adv == l' = l + 1 /\ UNCHANGED tr

\* ---- what the event asks for
Msg(f, c) == IF c \in DOMAIN f THEN f[c] ELSE <<>>
Asked(x) ==
  CASE x.e = "conn" -> S!Connect(s, x.h, x.c)
    [] x.e \in {"send", "reload", "report"} -> s
    [] x.e = "close" -> S!HangUp(s, x.c)
    [] x.e = "hold" -> S!Takes(s, x.c, x.n)
    [] x.e = "brk" -> IF x.did THEN S!Break(s, x.c) ELSE s
    [] x.e = "rcn" -> IF x.did THEN S!Connect(S!Break(s, x.c), x.h, x.nc2) ELSE s
    [] x.e = "prod" -> S!Announce(s, x.pid)
    [] x.e = "pass" -> IF x.secs > Meta.wake THEN S!LookAll(s, S!Hosts(s)) ELSE s
RECURSIVE HearAll(_, _)
HearAll(u, f) == IF DOMAIN f = {} THEN u ELSE LET c == CHOOSE x \in DOMAIN f : \A y \in DOMAIN f : x <= y IN HearAll(S!Hears(u, c, f[c]), S!Without(f, c))
\* ---- those that said nothing. The time is known to the second or so
Row(h) == {i \in 1..Len(Ev.tab) : Ev.tab[i].h = h}
Late(h, b) == \/ Ev.t > b[2] + Meta.idsecs + 2
              \/ Ev.t > b[1] + Meta.idsecs /\ ~\E i \in Row(h) : Ev.tab[i].p = 0
RECURSIVE ExpireAll(_, _, _)
ExpireAll(u, f, hs) == IF hs = {} THEN u ELSE LET h == CHOOSE x \in hs : TRUE IN ExpireAll(IF Late(h, f[h]) THEN S!TimeOut(u, h) ELSE u, f, hs \ {h})
News(u) == {h \in S!Hosts(u) : u.ent[h].th = "new"}

\* ---- what is seen
Flag(b) == IF b THEN 1 ELSE 0
State(e) == CASE e.th = "new" -> 0 [] e.th = "run" -> (IF e.todo = <<>> THEN 1 ELSE 3) [] OTHER -> 2
Sum(g) == FoldLeft(LAMBDA a, x : a + x[2], 0, g)
Sees(u, m) ==
  /\ Len(Ev.tab) = Cardinality(S!Hosts(u))
  /\ \A i \in 1..Len(Ev.tab) : LET r == Ev.tab[i] IN
       /\ r.h \in S!Hosts(u)
       /\ r.c = u.ent[r.h].c /\ r.p = u.ent[r.h].p /\ r.st = State(u.ent[r.h]) /\ r.q = S!Queued(u.ent[r.h])
  /\ Ev.ne = Len(Ev.tab) + 1 /\ Ev.nc = Len(Ev.tab)
  /\ Ev.socks = Cardinality({h \in S!Hosts(u) : u.ent[h].c /= 0})
  /\ Ev.files = Cardinality({h \in S!Hosts(u) : State(u.ent[h]) = 3 /\ u.ent[h].p \in {1, 4}})
  /\ \A i \in 1..Len(Ev.rx) : LET r == Ev.rx[i] IN
       /\ r.n = Sum(u.log[r.c])
       /\ r.c \in m \/ r.eof = Flag(r.c \in u.shut)
Lists(u) ==
  LET want == {<<h, u.ent[h].p, S!Queued(u.ent[h])>> : h \in {x \in S!Hosts(u) : u.ent[x].th /= "new"}} IN
  /\ Ev.head = <<Cardinality(S!Hosts(u)) + 1, Cardinality(S!Hosts(u))>>
  /\ Len(Ev.rows) = Cardinality(want) /\ \A i \in 1..Len(Ev.rows) : Ev.rows[i] \in want

MineNext == CASE Ev.e = "close" -> mine \cup {Ev.c} [] (Ev.e = "rcn" /\ Ev.did /\ Ev.gone = 1) -> mine \cup {Ev.c} [] OTHER -> mine
PendNext == IF Ev.e \in {"conn", "send"} /\ Ev.msg /= <<>> THEN S!Set(pend, Ev.c, Msg(pend, Ev.c) \o Ev.msg) ELSE pend
Op == /\ More /\ Ev.e /= "quit"
      /\ IF Ev.later
         THEN /\ s' = Asked(Ev) /\ pend' = PendNext /\ mine' = MineNext
              /\ born' = IF Ev.e = "conn" THEN S!Set(born, Ev.h, <<now, now + 100>>) ELSE born
              /\ UNCHANGED now
         ELSE LET f == PendNext
                  u == HearAll(Asked(Ev), f)
                  b == [h \in News(u) |-> IF Ev.e = "conn" /\ Ev.h = h THEN <<now, Ev.t>> ELSE born[h]]
                  v == ExpireAll(u, b, News(u)) IN
              /\ Free \/ ((Ev.e \in {"brk", "rcn"} => Ev.did = S!Blocked(s, Ev.c)) /\ Sees(v, MineNext) /\ (Ev.e = "report" => Lists(v)))
              /\ s' = v /\ born' = b /\ pend' = <<>> /\ now' = Ev.t /\ mine' = MineNext
      /\ Adv
\* the end: every connection is closed, and was sent exactly that
Same(g, d) == Len(g) = Len(d) /\ \A i \in 1..Len(g) : d[i][2] = g[i][2] /\ (d[i][1] = g[i][1] \/ (d[i][1] = 0 /\ i = Len(g) /\ ~g[i][3]))
Quit == /\ More /\ Ev.e = "quit"
        /\ Free \/ (Ev.open = <<>> /\ \A i \in 1..Len(Ev.streams) : Same(s.log[Ev.streams[i].c], Ev.streams[i].segs))
        /\ Adv /\ UNCHANGED <<s, born, pend, mine, now>>
Done == ~More /\ UNCHANGED vars
Next == Op \/ Quit \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
