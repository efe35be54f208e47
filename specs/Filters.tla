------------------------------- MODULE Filters -------------------------------
(***************************************************************************)
(* The filter server: which filters there are (the ones of a configured    *)
(* list and the fifos and programs of a directory), and what each of them  *)
(* receives.  A fifo gets the announcement packet, in one write; a program *)
(* gets a line.  A fifo without a reader, or that is full when its time is *)
(* up, or a program that went away, loses that announcement, and nobody    *)
(* else does.                                                              *)
(*  s.node   path -> [k, ino]: what is there (fifo, prog, other)           *)
(*  s.list   path -> [type, open, sent, errs]: the table; open: the fifo   *)
(*           or the run of the program it is writing to (0: none)          *)
(*  s.fifo   ino -> [rd, wr, buf]: it has a reader, the server has it open *)
(*  s.run    path -> sequence of [alive, closed, buf]: runs of programs     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS System,        \* the configured list of programs, without repetitions
          Room(_),       \* announcements that fit in the fifo of this number
          Startable(_)   \* the program of this path can be started
LOCAL Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
LOCAL Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Quit == 0                \* what a program is sent when it must end
Nothing == [node |-> <<>>, list |-> <<>>, fifo |-> <<>>, run |-> <<>>]

\* A fifo forgets what nobody took when both ends are closed.
Settle(f) == IF f.rd \/ f.wr THEN f ELSE [f EXCEPT !.buf = <<>>]
SetFifo(s, i, f) == [s EXCEPT !.fifo[i] = Settle(f)]

\* ---- the outside
Make(s, p, k, i) == LET t == [s EXCEPT !.node = Put(s.node, p, [k |-> k, ino |-> i])] IN
                    IF k = "fifo" THEN [t EXCEPT !.fifo = Put(s.fifo, i, [rd |-> FALSE, wr |-> FALSE, buf |-> <<>>])] ELSE t
Unlink(s, p) == [s EXCEPT !.node = Without(@, p)]
Reader(s, p, b) == LET i == s.node[p].ino IN SetFifo(s, i, [s.fifo[i] EXCEPT !.rd = b])
ReaderOf(s, i, b) == SetFifo(s, i, [s.fifo[i] EXCEPT !.rd = b])
Taken(s, i, n) == IF n >= Len(s.fifo[i].buf) THEN s.fifo[i].buf ELSE SubSeq(s.fifo[i].buf, 1, n)
Take(s, i, n) == [s EXCEPT !.fifo[i].buf = SubSeq(@, Len(Taken(s, i, n)) + 1, Len(@))]
Runs(s, p) == IF p \in DOMAIN s.run THEN s.run[p] ELSE <<>>
Dies(s, p, k) == [s EXCEPT !.run[p][k].alive = FALSE, !.run[p][k].buf = <<>>]
Reads(s, p, k) == [s EXCEPT !.run[p][k].buf = <<>>]

\* ---- the server
Entry(t) == [type |-> t, open |-> 0, sent |-> 0, errs |-> 0]
Listed(s, p) == p \in DOMAIN s.list
AddEntry(s, p, t) == IF Listed(s, p) THEN s ELSE [s EXCEPT !.list = Put(@, p, Entry(t))]
Kind(s, p) == IF p \in DOMAIN s.node THEN s.node[p].k ELSE "none"

Listening(s, p) == Kind(s, p) = "fifo" /\ s.fifo[s.node[p].ino].rd
\* opens the closed filter p; what it is writing to stays 0 if it cannot
OpenOne(s, p) ==
  IF s.list[p].type = "fifo"
  THEN IF Listening(s, p)
       THEN LET i == s.node[p].ino IN [s EXCEPT !.list[p].open = i, !.fifo[i].wr = TRUE]
       ELSE s
  ELSE IF Startable(p)
       THEN [s EXCEPT !.run = Put(@, p, Append(Runs(s, p), [alive |-> TRUE, closed |-> FALSE, buf |-> <<>>])), !.list[p].open = Len(Runs(s, p)) + 1]
       ELSE s
Opened(s, p) == IF s.list[p].open = 0 THEN OpenOne(s, p) ELSE s
RECURSIVE OpenAll(_, _)
OpenAll(s, ps) ==
  IF ps = {} THEN s
  ELSE LET p == CHOOSE x \in ps : TRUE
           t == Opened(s, p)
           u == IF t.list[p].open = 0 THEN [t EXCEPT !.list = Without(@, p)] ELSE t IN
       OpenAll(u, ps \ {p})
CloseOne(s, p) ==
  LET o == s.list[p].open
      t == [s EXCEPT !.list[p].open = 0] IN
  IF o = 0 THEN s
  ELSE IF s.list[p].type = "fifo" THEN SetFifo(t, o, [t.fifo[o] EXCEPT !.wr = FALSE])
  ELSE [t EXCEPT !.run[p][o].closed = TRUE]
Say(s, p, k, x) == IF s.run[p][k].alive THEN [s EXCEPT !.run[p][k].buf = Append(@, x)] ELSE s
\* the program is told to end
EndOne(s, p) == LET o == s.list[p].open IN CloseOne(IF o # 0 /\ s.list[p].type = "prog" THEN Say(s, p, o, Quit) ELSE s, p)
RECURSIVE EndAll(_, _)
EndAll(s, ps) == IF ps = {} THEN s ELSE LET p == CHOOSE x \in ps : TRUE IN EndAll(EndOne(s, p), ps \ {p})
RECURSIVE AddAll(_, _, _)
AddAll(s, ps, t) == IF ps = {} THEN s ELSE LET p == CHOOSE x \in ps : TRUE IN AddAll(AddEntry(s, p, t), ps \ {p}, t)
\* dir: the paths that are in the directory
InDir(s, dir, k) == {p \in DOMAIN s.node \cap dir : s.node[p].k = k}
Find(s, dir) == AddAll(AddAll(AddAll(s, System, "prog"), InDir(s, dir, "fifo"), "fifo"), InDir(s, dir, "prog"), "prog")
Start(s, dir) == LET t == Find(s, dir) IN OpenAll(t, DOMAIN t.list)
Programs(s) == {p \in DOMAIN s.list : s.list[p].type = "prog"}
Reload(s, dir) ==
  LET t == EndAll(s, Programs(s))
      u == Find([t EXCEPT !.list = [p \in DOMAIN t.list \ Programs(s) |-> t.list[p]]], dir) IN
  OpenAll(u, DOMAIN u.list)
Stop(s) == LET t == EndAll(s, DOMAIN s.list) IN [t EXCEPT !.list = <<>>]

\* Writing to the open filter p.
Full(s, p) == s.list[p].type = "fifo" /\ s.list[p].open # 0 /\ LET f == s.fifo[s.list[p].open] IN f.rd /\ Len(f.buf) >= Room(s.list[p].open)
Accepts(s, p) ==
  LET o == s.list[p].open IN
  IF s.list[p].type = "fifo" THEN s.fifo[o].rd /\ Len(s.fifo[o].buf) < Room(o) ELSE s.run[p][o].alive
SendOne(s, p, x) ==
  LET t == Opened(s, p)
      o == t.list[p].open
      ok == o # 0 /\ Accepts(t, p)
      u == IF ~ok THEN IF o = 0 THEN t ELSE CloseOne(t, p)
           ELSE IF t.list[p].type = "fifo" THEN [t EXCEPT !.fifo[o].buf = Append(@, x)] ELSE Say(t, p, o, x) IN
  [u EXCEPT !.list[p].sent = @ + 1, !.list[p].errs = @ + IF ok THEN 0 ELSE 1]
RECURSIVE SendTo(_, _, _)
SendTo(s, ps, x) == IF ps = {} THEN s ELSE LET p == CHOOSE y \in ps : TRUE IN SendTo(SendOne(s, p, x), ps \ {p}, x)
Announce(s, x) == SendTo(s, DOMAIN s.list, x)
\* the filters it waits for, each of them for no longer than the write timeout
WaitedFor(s) == {p \in DOMAIN s.list : Full(Opened(s, p), p)}

Row(s, p) == <<p, s.list[p].sent, s.list[p].errs>>
Report(s) == {Row(s, p) : p \in DOMAIN s.list}
Reported(s) == [s EXCEPT !.list = [p \in DOMAIN s.list |-> [s.list[p] EXCEPT !.sent = 0, !.errs = 0]]]
==============================================================================
