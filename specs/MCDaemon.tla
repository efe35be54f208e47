------------------------------ MODULE MCDaemon ------------------------------
(* Instances started in any order on one configuration, each step of each     *)
(* interleaved with those of the others; any step may fail, signals come at   *)
(* any moment, and instances crash.                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, Faults, Records, Crashes, Signals
Ids == 1..N
Filters == {"f"}
Cons == {"f", "c"}
VARIABLES pc, how, flag, hup, rc, started, lock, qf, inf, port, scr, progs, on, pend, out, old, kept, fed, crashed
INSTANCE Daemon
vars == <<pc, how, flag, hup, rc, started, lock, qf, inf, port, scr, progs, on, pend, out, old, kept, fed, crashed>>
MCInit == Init /\ progs = Filters /\ fed = 0 /\ crashed = 0
All == {"filters", "readers", "server"}
Hows == [kind : {"run"}, at : {"", "conf", "script", "lock", "fifo", "open", "late"} \cap Faults, opts : {All}] \cup {[kind |-> "print", at |-> "", opts |-> All]}
Same == UNCHANGED <<fed, crashed>>
Internal == \E i \in Ids : Start(i) \/ End(i, Filters) \/ OpenIn(i) \/ OpenPort(i) \/ OpenFilter(i, "f") \/ Reload(i, Filters)
MCNext ==
  \/ \E i \in Ids, h \in Hows : (\A j \in Ids : j < i => pc[j] /= "none") /\ Spawn(i, h) /\ Same
  \/ Internal /\ Same
  \/ \E i \in Ids, s \in Signals : flag[i] = 0 /\ ~hup[i] /\ (s = 1 => Len(out["f"]) < 3) /\ Signal(i, s) /\ Same
  \/ Connect("c") /\ inf /= 0 /\ Same
  \/ inf /= 0 /\ fed < Records /\ Feed(ToString(fed + 1), {c \in Cons : on[c] /= "off"}) /\ fed' = fed + 1 /\ UNCHANGED crashed
  \/ \E c \in Cons : Deliver(c) /\ Same
  \/ crashed < Crashes /\ (\E i \in Ids : Crash(i, Filters)) /\ crashed' = crashed + 1 /\ UNCHANGED fed
  \/ crashed > 0 /\ lock /= 0 /\ Admin /\ Same
Fair == \A i \in Ids : WF_vars((Start(i) \/ End(i, Filters)) /\ Same)
Spec == MCInit /\ [][MCNext]_vars /\ Fair

Holds(i) == pc[i] \in {"fifo", "open", "run"} \/ (pc[i] \in {"quit", "files"} /\ lock = i)
AtMostOne == Cardinality({i \in Ids : Holds(i)}) <= 1
\* The running one has what it made, whatever the others do.
Undisturbed == \A i \in Ids : pc[i] = "run" => lock = i /\ qf = i /\ inf \in {0, i} /\ port \in {0, i}
NothingLeft == (crashed = 0 /\ \A i \in Ids : ~Alive(i)) => lock = 0 /\ qf = 0 /\ inf = 0 /\ port = 0
\* only a crash leaves something, and then no one alive has it
OnlyCrashes == \A i \in Ids : (lock = i \/ qf = i \/ inf = i) => pc[i] = "dead" \/ Alive(i)
Count(w, i) == Cardinality({k \in 1..Len(scr) : scr[k] = <<w, i>>})
Paired == \A i \in Ids : /\ Count("start", i) <= 1 /\ Count("stop", i) <= Count("start", i)
                         /\ pc[i] = "end" => Count("stop", i) = Count("start", i)
Num(x) == IF x \in {"start", "eof"} THEN 0 ELSE CHOOSE n \in 1..Records : ToString(n) = x
\* what a consumer is given: each record at most once, in order, also after restarts
InOrder == \A c \in Cons : \A a, b \in 1..Len(out[c]) : (a < b /\ Num(out[c][a]) > 0 /\ Num(out[c][b]) > 0) => Num(out[c][a]) < Num(out[c][b])
Streams == out["f"] /= <<>> => /\ out["f"][1] = "start"
                               /\ \A k \in 2..Len(out["f"]) : (out["f"][k] = "start") = (out["f"][k-1] = "eof")
                               /\ (on["f"] = "off") = (out["f"][Len(out["f"])] = "eof")
Decided == \A i \in Ids : pc[i] = "conf" ~> pc[i] \in {"run", "end", "dead"}
Stops == \A i \in Ids : (flag[i] /= 0) ~> ~Alive(i)
=============================================================================
