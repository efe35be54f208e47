------------------------------- MODULE Daemon -------------------------------
(* The life of the daemon: instances started on the same configuration, step  *)
(* by step, with failures, signals and crashes; what is in the file system;   *)
(* the scripts executed; and what is handed over to the programs and clients. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Ids,       \* the instances
          Cons       \* the consumers: filter programs, the http server, clients
\* how an instance is started:
\*   kind   "run", "print" (only prints the configuration)
\*   at     the step that fails ("" none)
\*   opts   what is enabled, a subset of {"filters", "readers", "server", "httpd"}
VARIABLES pc, how, flag, hup, rc, started, \* per instance
          lock, qf, inf, port,             \* who made it, 0 if it is not there
          scr,                             \* scripts executed <<"start" or "stop", instance>>
          progs,                           \* the filters that there are
          on, pend, out,                   \* per consumer: "off", "join", "on"; to be sent; was sent
          old, kept                        \* how many at the head of pend are from before the last start; whether some of them were sent
dvars == <<pc, how, flag, hup, rc, started, lock, qf, inf, port, scr, progs, on, pend, out, old, kept>>
files == <<lock, qf, inf, port>>
outv  == <<progs, on, pend, out, old, kept>>

Init == /\ pc = [i \in Ids |-> "none"] /\ how = [i \in Ids |-> [kind |-> "run", at |-> "", opts |-> {}]]
        /\ flag = [i \in Ids |-> 0] /\ hup = [i \in Ids |-> FALSE] /\ rc = [i \in Ids |-> 0] /\ started = [i \in Ids |-> FALSE]
        /\ lock = 0 /\ qf = 0 /\ inf = 0 /\ port = 0 /\ scr = <<>>
        /\ on = [c \in Cons |-> "off"] /\ pend = [c \in Cons |-> <<>>] /\ out = [c \in Cons |-> <<>>]
        /\ old = [c \in Cons |-> 0] /\ kept = [c \in Cons |-> FALSE]
Alive(i) == pc[i] \notin {"none", "end", "dead"}
Running(i) == pc[i] = "run" /\ flag[i] = 0
To(i, s) == pc' = [pc EXCEPT ![i] = s]
Quit(i, r) == To(i, "quit") /\ rc' = [rc EXCEPT ![i] = r]

Spawn(i, h) == /\ pc[i] = "none" /\ To(i, "conf") /\ how' = [how EXCEPT ![i] = h]
               /\ UNCHANGED <<flag, hup, rc, started, scr>> /\ UNCHANGED files /\ UNCHANGED outv
\* A signal that comes before the program has blocked it.
EarlyDeath(i) == /\ pc[i] = "conf" /\ flag[i] /= 0 /\ To(i, "end") /\ rc' = [rc EXCEPT ![i] = -flag[i]]
                 /\ UNCHANGED <<how, flag, hup, started, scr>> /\ UNCHANGED files /\ UNCHANGED outv
Conf(i) == /\ pc[i] = "conf"
           /\ IF how[i].at = "conf" THEN Quit(i, 1)
              ELSE IF how[i].kind = "print" THEN Quit(i, 0) ELSE To(i, "check") /\ UNCHANGED rc
           /\ UNCHANGED <<how, flag, hup, started, scr>> /\ UNCHANGED files /\ UNCHANGED outv
Check(i) == /\ pc[i] = "check"
            /\ IF lock /= 0 THEN Quit(i, 1) ELSE To(i, "script") /\ UNCHANGED rc
            /\ UNCHANGED <<how, flag, hup, started, scr>> /\ UNCHANGED files /\ UNCHANGED outv
Script(i) == /\ pc[i] = "script"
             /\ started' = [started EXCEPT ![i] = TRUE] /\ scr' = Append(scr, <<"start", i>>)
             /\ IF how[i].at = "script" THEN Quit(i, 1) ELSE To(i, "lock") /\ UNCHANGED rc
             /\ UNCHANGED <<how, flag, hup>> /\ UNCHANGED files /\ UNCHANGED outv
Lock(i) == /\ pc[i] = "lock"
           /\ IF lock /= 0 \/ how[i].at = "lock" THEN Quit(i, 1) /\ UNCHANGED lock
              ELSE lock' = i /\ To(i, "fifo") /\ UNCHANGED rc
           /\ UNCHANGED <<how, flag, hup, started, qf, inf, port, scr>> /\ UNCHANGED outv
Fifo(i) == /\ pc[i] = "fifo"
           /\ IF how[i].at = "fifo" THEN Quit(i, 1) /\ UNCHANGED qf
              ELSE qf' = i /\ To(i, "open") /\ UNCHANGED rc
           /\ UNCHANGED <<how, flag, hup, started, lock, inf, port, scr>> /\ UNCHANGED outv
\* Feeds, spool, queues: of what had not been delivered, some of the last may not have been
\* read from the fifo, and some of the first may be lost.
Open(i) == /\ pc[i] = "open"
           /\ IF how[i].at = "open" THEN Quit(i, 1) /\ UNCHANGED <<old, kept>>
              ELSE To(i, "run") /\ UNCHANGED rc /\ old' = [c \in Cons |-> Len(pend[c])] /\ kept' = [c \in Cons |-> FALSE]
           /\ UNCHANGED <<how, flag, hup, started, scr, progs, on, pend, out>> /\ UNCHANGED files
\* The threads, each when it comes to it.
Up(i) == pc[i] \in {"run", "quit"} /\ qf = i /\ how[i].at /= "open"
OpenFilter(i, c) == /\ Up(i) /\ "filters" \in how[i].opts /\ c \in progs /\ on[c] = "off"
                    /\ on' = [on EXCEPT ![c] = "on"] /\ out' = [out EXCEPT ![c] = Append(@, "start")]
                    /\ UNCHANGED <<pc, how, flag, hup, rc, started, scr, progs, pend, old, kept>> /\ UNCHANGED files
OpenHttpd(i, c) == /\ Up(i) /\ "httpd" \in how[i].opts /\ on[c] = "off"
                   /\ on' = [on EXCEPT ![c] = "on"] /\ out' = [out EXCEPT ![c] = Append(@, "start")]
                   /\ UNCHANGED <<pc, how, flag, hup, rc, started, scr, progs, pend, old, kept>> /\ UNCHANGED files
OpenIn(i) == /\ Up(i) /\ "readers" \in how[i].opts /\ inf /= i /\ inf' = i
             /\ UNCHANGED <<pc, how, flag, hup, rc, started, lock, qf, port, scr>> /\ UNCHANGED outv
OpenPort(i) == /\ Up(i) /\ "server" \in how[i].opts /\ port /= i /\ port' = i
               /\ UNCHANGED <<pc, how, flag, hup, rc, started, lock, qf, inf, scr>> /\ UNCHANGED outv
\* A thread that cannot start ends the daemon.
LateFailure(i) == /\ pc[i] = "run" /\ how[i].at = "late" /\ \E r \in {0, 1} : Quit(i, r)
                  /\ UNCHANGED <<how, flag, hup, started, scr>> /\ UNCHANGED files /\ UNCHANGED outv
Signal(i, s) == /\ Alive(i)
                /\ IF s \in {13, 14} THEN UNCHANGED <<flag, hup>>
                   ELSE IF s = 1 THEN hup' = [hup EXCEPT ![i] = TRUE] /\ UNCHANGED flag
                   ELSE flag' = [flag EXCEPT ![i] = s] /\ UNCHANGED hup
                /\ UNCHANGED <<pc, how, rc, started, scr>> /\ UNCHANGED files /\ UNCHANGED outv
Obey(i) == /\ pc[i] = "run" /\ flag[i] /= 0 /\ \E r \in {0} : Quit(i, r)
           /\ UNCHANGED <<how, flag, hup, started, scr>> /\ UNCHANGED files /\ UNCHANGED outv
\* The filters are closed and opened again.
Reload(i, F) == /\ Running(i) /\ hup[i] /\ hup' = [hup EXCEPT ![i] = FALSE]
                /\ IF "filters" \in how[i].opts
                   THEN LET O == {c \in progs : on[c] /= "off"} IN
                        /\ progs' = F
                        /\ on' = [c \in Cons |-> IF c \in F THEN "on" ELSE IF c \in O THEN "off" ELSE on[c]]
                        /\ out' = [c \in Cons |-> out[c] \o (IF c \in O THEN <<"eof">> ELSE <<>>) \o (IF c \in F THEN <<"start">> ELSE <<>>)]
                   ELSE progs' = F /\ UNCHANGED <<on, out>>
                /\ UNCHANGED <<pc, how, flag, rc, started, scr, pend, old, kept>> /\ UNCHANGED files
\* A client is served from some moment after it connects.
Connect(c) == /\ on[c] = "off" /\ on' = [on EXCEPT ![c] = "join"]
              /\ UNCHANGED <<pc, how, flag, hup, rc, started, scr, progs, pend, out, old, kept>> /\ UNCHANGED files
Feed(r, takes) == /\ \E i \in Ids : pc[i] = "run"
                  /\ takes \subseteq {c \in Cons : on[c] /= "off" /\ c \in takes}
                  /\ pend' = [c \in Cons |-> IF c \in takes THEN Append(pend[c], r) ELSE pend[c]]
                  /\ on' = [c \in Cons |-> IF c \in takes THEN "on" ELSE on[c]]
                  /\ UNCHANGED <<pc, how, flag, hup, rc, started, scr, progs, out, old, kept>> /\ UNCHANGED files
Deliver(c) == /\ on[c] = "on"
              /\ \E k \in (IF kept[c] THEN {0, old[c]} ELSE 0..old[c]) : \* so many are lost
                    /\ k < Len(pend[c])
                    /\ old' = [old EXCEPT ![c] = IF k < @ THEN @ - k - 1 ELSE 0]
                    /\ kept' = [kept EXCEPT ![c] = k < old[c] - 1]
                    /\ out' = [out EXCEPT ![c] = Append(@, pend[c][k + 1])] /\ pend' = [pend EXCEPT ![c] = SubSeq(@, k + 2, Len(@))]
              /\ UNCHANGED <<pc, how, flag, hup, rc, started, scr, progs, on>> /\ UNCHANGED files
Closed(P) == out' = [c \in Cons |-> IF on[c] /= "off" /\ c \in P THEN Append(out[c], "eof") ELSE out[c]]
Mine(i) == qf = i
\* The threads are ended, and close what they opened.
Threads(i, P) == /\ pc[i] = "quit" /\ To(i, "files")
                 /\ inf' = (IF inf = i THEN 0 ELSE inf) /\ port' = (IF port = i THEN 0 ELSE port)
                 /\ IF lock = i THEN Closed(P) /\ on' = [c \in Cons |-> "off"] ELSE UNCHANGED <<on, out>>
                 /\ UNCHANGED <<how, flag, hup, rc, started, lock, qf, scr, progs, pend, old, kept>>
Files(i) == /\ pc[i] = "files"
            /\ IF lock = i /\ qf = i THEN qf' = 0 /\ UNCHANGED <<lock, pc>>
               ELSE qf' = qf /\ lock' = (IF lock = i THEN 0 ELSE lock) /\ To(i, "unscript")
            /\ UNCHANGED <<how, flag, hup, rc, started, inf, port, scr>> /\ UNCHANGED outv
Unscript(i) == /\ pc[i] = "unscript" /\ To(i, "end")
               /\ scr' = (IF started[i] THEN Append(scr, <<"stop", i>>) ELSE scr)
               /\ UNCHANGED <<how, flag, hup, rc, started>> /\ UNCHANGED files /\ UNCHANGED outv
Crash(i, P) == /\ Alive(i) /\ To(i, "dead") /\ rc' = [rc EXCEPT ![i] = -9]
               /\ port' = (IF port = i THEN 0 ELSE port)
               /\ IF lock = i THEN Closed(P) /\ on' = [c \in Cons |-> "off"] /\ pend' = [c \in Cons |-> <<>>] ELSE UNCHANGED <<on, pend, out>>
               /\ UNCHANGED <<how, flag, hup, started, lock, qf, inf, scr, progs>> /\ old' = [c \in Cons |-> IF pend'[c] = <<>> THEN 0 ELSE old[c]] /\ UNCHANGED kept
\* What somebody does after a crash, when he has seen that nothing is running.
Admin == /\ \A i \in Ids : ~Alive(i)
         /\ lock' = 0 /\ qf' = 0 /\ inf' = 0 /\ UNCHANGED port
         /\ pend' = [c \in Cons |-> <<>>]
         /\ UNCHANGED <<pc, how, flag, hup, rc, started, scr, progs, on, out>> /\ old' = [c \in Cons |-> 0] /\ UNCHANGED kept
Start(i) == EarlyDeath(i) \/ Conf(i) \/ Check(i) \/ Script(i) \/ Lock(i) \/ Fifo(i) \/ Open(i)
End(i, P) == Obey(i) \/ LateFailure(i) \/ Threads(i, P) \/ Files(i) \/ Unscript(i)
=============================================================================
