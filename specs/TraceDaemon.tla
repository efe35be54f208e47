----------------------------- MODULE TraceDaemon -----------------------------
(* Validates histories of real daemons: what is done to them, and what is seen *)
(* whenever nothing moves. Everything in between is for the specification to  *)
(* find (some behaviour must explain the trace).                              *)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC, TLCExt
CONSTANT TraceFile, IndexFile
Events == ndJsonDeserialize(TraceFile)
Index  == ndJsonDeserialize(IndexFile)
VARIABLES tr, l, pc, how, flag, hup, rc, started, lock, qf, inf, port, scr, progs, next, on, pend, out, old, kept
SetOf(s) == {s[i] : i \in 1..Len(s)}
Ids == 1..8
Cons == {"f1", "f2", "f3", "httpd", "c1", "c2"}
D == INSTANCE Daemon
tvars == <<tr, l, pc, how, flag, hup, rc, started, lock, qf, inf, port, scr, progs, next, on, pend, out, old, kept>>
Meta == Events[Index[tr].a]
Ev == Events[Index[tr].a + l]
More == l < Index[tr].n
Programs == {"f1", "f2", "f3", "httpd"}
Init == /\ tr \in 1..Len(Index) /\ l = 1 /\ next = SetOf(Events[Index[tr].a].progs)
        /\ pc = [i \in Ids |-> "none"] /\ how = [i \in Ids |-> [kind |-> "run", at |-> "", opts |-> {}]]
        /\ flag = [i \in Ids |-> 0] /\ hup = [i \in Ids |-> FALSE] /\ rc = [i \in Ids |-> 0] /\ started = [i \in Ids |-> FALSE]
        /\ lock = Events[Index[tr].a].lock /\ qf = Events[Index[tr].a].lock /\ inf = Events[Index[tr].a].lock /\ port = 0 /\ scr = <<>>
        /\ progs = SetOf(Events[Index[tr].a].progs)
        /\ on = [c \in Cons |-> "off"] /\ pend = [c \in Cons |-> <<>>] /\ out = [c \in Cons |-> <<>>]
        /\ old = [c \in Cons |-> 0] /\ kept = [c \in Cons |-> FALSE]
Adv == l' = l + 1 /\ UNCHANGED tr
Is(e) == More /\ Ev.e = e
NoObs == UNCHANGED next

Spawn == /\ Is("spawn") /\ D!Spawn(Ev.i, [kind |-> Ev.kind, at |-> Ev.at, opts |-> SetOf(Ev.opts)]) /\ Adv /\ NoObs
Sig == Is("sig") /\ D!Signal(Ev.i, Ev.s) /\ Adv /\ NoObs
\* a signal sent to a process that may already have ended
Late == Is("sig") /\ ~D!Alive(Ev.i) /\ UNCHANGED <<pc, how, flag, hup, rc, started, lock, qf, inf, port, scr, progs, on, pend, out, old, kept>> /\ Adv /\ NoObs
Kill == Is("kill") /\ D!Crash(Ev.i, Programs) /\ Adv /\ NoObs
Admin == Is("admin") /\ D!Admin /\ Adv /\ NoObs
\* the filters in the directory change; it matters when the daemon looks again. What remained
\* in the queue is for all the filters there are when it starts.
Filters == {"f1", "f2", "f3"}
Longest == LET c == CHOOSE x \in Filters : \A y \in Filters : Len(pend[y]) <= Len(pend[x]) IN pend[c]
Dir == /\ Is("dir") /\ next' = SetOf(Ev.progs) /\ UNCHANGED <<pc, how, flag, hup, rc, started, lock, qf, inf, port, scr, on, out, old, kept>>
       /\ IF \A i \in Ids : ~D!Alive(i)
          THEN /\ progs' = SetOf(Ev.progs)
               /\ pend' = [c \in Cons |-> IF c \in Filters THEN IF c \in progs /\ c \in progs' THEN pend[c] ELSE IF c \in progs' THEN Longest ELSE <<>> ELSE pend[c]]
          ELSE UNCHANGED <<progs, pend>>
       /\ Adv
Connect == Is("connect") /\ D!Connect(Ev.c) /\ Adv /\ NoObs
Taking(c) == on[c] = "on" /\ (c \in Programs => c \in progs)
Feed == /\ Is("feed")
        /\ \E J \in SUBSET {c \in Cons : on[c] = "join"} : D!Feed(Ev.r, {c \in Cons \ {"httpd"} : Taking(c)} \cup J)
        /\ Adv /\ NoObs
\* Nothing moves any more, and this is what is seen.
Settled == /\ \A i \in Ids : /\ pc[i] \in {"none", "run", "end", "dead"}
                             /\ (pc[i] = "run") => /\ flag[i] = 0 /\ ~hup[i] /\ how[i].at = ""
                                                   /\ ("readers" \in how[i].opts => inf = i)
                                                   /\ ("server" \in how[i].opts => port = i)
                                                   /\ ("filters" \in how[i].opts => \A c \in progs : on[c] = "on")
                                                   /\ ("httpd" \in how[i].opts => on["httpd"] = "on")
                                                   /\ \A c \in Programs \cup SetOf(Ev.known) : on[c] = "on" => Len(pend[c]) <= old[c]
Seen == /\ Is("seen") /\ Settled
        /\ SetOf(Ev.alive) = {i \in Ids : pc[i] = "run"}
        /\ \A k \in 1..Len(Ev.ended) : Ev.ended[k][2] = rc[Ev.ended[k][1]]
        /\ Ev.lock = lock /\ Ev.qf = (qf /= 0) /\ Ev.inf = (inf /= 0) /\ Ev.port = (port /= 0)
        /\ Ev.scr = scr
        /\ \A c \in Cons : c \in DOMAIN Ev.out => Ev.out[c] = out[c]
        /\ scr' = <<>> /\ out' = [c \in Cons |-> <<>>]
        /\ UNCHANGED <<pc, how, flag, hup, rc, started, lock, qf, inf, port, progs, on, pend, old, kept>>
        /\ Adv /\ NoObs
Prefix(a, b) == Len(a) <= Len(b) /\ a = SubSeq(b, 1, Len(a))
Obs == {k \in l..(Index[tr].n - 1) : Events[Index[tr].a + k].e = "seen"}
FirstObs == Events[Index[tr].a + (CHOOSE k \in Obs : \A j \in Obs : k <= j)]
\* Steps that commute with all the others are taken first, in one order: to send what is
\* seen next to have been sent, to open what has to be opened.
Exp(c) == IF Obs /= {} /\ c \in DOMAIN FirstObs.out /\ Len(out[c]) < Len(FirstObs.out[c]) THEN FirstObs.out[c][Len(out[c]) + 1] ELSE ""
Sends == {c \in Cons : on[c] = "on" /\ \E k \in 1..Len(pend[c]) : pend[c][k] = Exp(c)}
Opens == {i \in Ids : (ENABLED D!OpenIn(i)) \/ (ENABLED D!OpenPort(i))}
Begins == {c \in Programs : Exp(c) = "start" /\ \E i \in Ids : IF c = "httpd" THEN ENABLED D!OpenHttpd(i, c) ELSE ENABLED D!OpenFilter(i, c)}
Hidden == /\ More
          /\ IF Sends /= {} THEN D!Deliver(CHOOSE c \in Sends : TRUE)
             ELSE IF Begins /= {} THEN LET c == CHOOSE x \in Begins : TRUE IN \E i \in Ids : IF c = "httpd" THEN D!OpenHttpd(i, c) ELSE D!OpenFilter(i, c)
             ELSE IF Opens /= {} THEN LET i == CHOOSE x \in Opens : TRUE IN IF ENABLED D!OpenIn(i) THEN D!OpenIn(i) ELSE D!OpenPort(i)
             ELSE \E i \in Ids : D!Start(i) \/ D!End(i, Programs) \/ D!Reload(i, next)
          /\ UNCHANGED <<tr, l, next>>
Done == ~More /\ UNCHANGED tvars
Next == Spawn \/ Sig \/ Late \/ Kill \/ Admin \/ Dir \/ Connect \/ Feed \/ Seen \/ Hidden \/ Done
Spec == Init /\ [][Next]_tvars

ASSUME \A i \in 1..Len(Index) : TLCSet(i, 0)
\* what was sent, as far as it is known from what is seen next
\* only what is a beginning of what is seen next can explain it
Seems == TLCSet(tr, IF l > TLCGet(tr) THEN l ELSE TLCGet(tr))
         /\ (Obs /= {} => /\ Prefix(scr, FirstObs.scr)
                          /\ \A c \in DOMAIN FirstObs.out : Prefix(out[c], FirstObs.out[c]))
Accepted == \A i \in 1..Len(Index) :
               \/ TLCGet(i) = Index[i].n
               \/ PrintT(<<"REJECTED", i, TLCGet(i)>>) /\ FALSE
=============================================================================
