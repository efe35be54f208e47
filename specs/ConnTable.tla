----------------------------- MODULE ConnTable -----------------------------
(* The table of connections, the cycle of the server thread and the client    *)
(* threads, with every interleaving of them:                                  *)
(*   tab    the entries, in order: host, fd (0 closed), p (1 identified), th  *)
(*          "no", "on", "fin", what poll said of fd, and id                   *)
(*   good   entry -> the connection is good, and which it is                  *)
(*   thr    entry -> its thread: st "idle", "send", "sleep", the fd it has,   *)
(*          the packet of the product it is at, and the times it waited       *)
(*   q      entry -> products queued, the first one being sent                *)
(*   socks  sockets that the server has open                                  *)
(*   cli    connection -> what the client sees: "open", "closed" by itself    *)
(*   out    connection -> packets that were sent                              *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS HostSet, Conns, Prods, Packets, Max, Tries, Faults, CloseOld, Forget
VARIABLES tab, good, thr, q, socks, cli, out, back, said, phase, heard, ids, nc, np, nf, wrong, due
vars == <<tab, good, thr, q, socks, cli, out, back, said, phase, heard, ids, nc, np, nf, wrong, due>>
table == <<tab, good, thr, q, socks>>
world == <<cli, back, said, nc>>
Entry(h, c, i) == [h |-> h, fd |-> c, p |-> 0, th |-> "no", rev |-> {}, id |-> i]
Ids == {tab[i].id : i \in 1..Len(tab)}
At(id) == CHOOSE i \in 1..Len(tab) : tab[i].id = id
Drop(i) == SubSeq(tab, 1, i - 1) \o SubSeq(tab, i + 1, Len(tab))
Set(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Init == /\ tab = <<>> /\ good = <<>> /\ thr = <<>> /\ q = <<>> /\ socks = {} /\ cli = <<>> /\ out = <<>> /\ back = <<>> /\ said = {}
        /\ phase = "fin" /\ heard = FALSE /\ ids = 0 /\ nc = 0 /\ np = 0 /\ nf = 0 /\ wrong = FALSE /\ due = <<>>
\* ---- the clients
Dial == \E h \in HostSet :
           /\ nc < Conns /\ nc' = nc + 1
           /\ cli' = Set(cli, nc + 1, [h |-> h, open |-> TRUE]) /\ back' = Append(back, nc + 1) /\ out' = Set(out, nc + 1, <<>>) /\ said' = said \cup {nc + 1}
           /\ UNCHANGED <<table, phase, heard, ids, np, nf, wrong, due>>
Leave == \E c \in DOMAIN cli :
           /\ nf < Faults /\ nf' = nf + 1 /\ cli[c].open /\ cli' = [cli EXCEPT ![c].open = FALSE]
           /\ UNCHANGED <<table, out, back, said, phase, heard, ids, nc, np, wrong, due>>
\* ---- the server thread, a phase at a time
Go(p) == phase' = p
\* (an entry that cannot be removed in this turn is removed in the next)
Fin == /\ phase = "fin"
       /\ IF \E i \in 1..Len(tab) : tab[i].th = "fin"
          THEN LET i == CHOOSE i \in 1..Len(tab) : tab[i].th = "fin" IN
               tab' = Drop(i) /\ socks' = socks \ {tab[i].fd} /\ UNCHANGED phase
          ELSE Go("dirty") /\ UNCHANGED <<tab, socks>>
       /\ UNCHANGED <<good, thr, q, world, out, heard, ids, np, nf, wrong, due>>
Dirty == /\ phase = "dirty"
         /\ LET bad == {i \in 1..Len(tab) : tab[i].th = "on" /\ good[tab[i].id] = 0 /\ tab[i].fd /= 0} IN
            /\ tab' = [i \in 1..Len(tab) |-> IF i \in bad THEN [tab[i] EXCEPT !.fd = 0] ELSE tab[i]]
            /\ socks' = socks \ {tab[i].fd : i \in bad}
         /\ Go("spawn") /\ UNCHANGED <<good, thr, q, world, out, heard, ids, np, nf, wrong, due>>
Spawn == /\ phase = "spawn"
         /\ LET new == {i \in 1..Len(tab) : tab[i].p = 1 /\ tab[i].th = "no"} IN
            /\ tab' = [i \in 1..Len(tab) |-> IF i \in new THEN [tab[i] EXCEPT !.th = "on"] ELSE tab[i]]
            /\ thr' = [x \in DOMAIN thr \cup {tab[i].id : i \in new} |-> IF x \in DOMAIN thr THEN thr[x] ELSE [st |-> "idle", fd |-> tab[At(x)].fd, pos |-> 0, tries |-> 0]]
            /\ q' = [x \in DOMAIN q \cup {tab[i].id : i \in new} |-> IF x \in DOMAIN q THEN q[x] ELSE <<>>]
            /\ due' = [x \in DOMAIN due \cup {tab[i].id : i \in new} |-> IF x \in DOMAIN due THEN due[x] ELSE [from |-> <<>>, done |-> <<>>]]
         /\ Go("poll") /\ UNCHANGED <<good, socks, world, out, heard, ids, np, nf, wrong>>
Poll == /\ phase = "poll"
        /\ heard' = (back /= <<>>)
        /\ tab' = [i \in 1..Len(tab) |-> [tab[i] EXCEPT !.rev = IF tab[i].fd = 0 THEN {} ELSE (IF cli[tab[i].fd].open THEN {} ELSE {"hup"}) \cup (IF tab[i].fd \in said THEN {"in"} ELSE {})]]
        /\ Go("accept") /\ UNCHANGED <<good, thr, q, socks, world, out, ids, np, nf, wrong, due>>
Where(h) == {i \in 1..Len(tab) : tab[i].h = h}
Accept == /\ phase = "accept"
          /\ IF ~heard THEN Go("events") /\ UNCHANGED <<table, back, ids, said>>
             ELSE LET c == Head(back) h == cli[c].h w == Where(h) IN
                  /\ back' = Tail(back) /\ Go("events")
                  /\ IF w /= {} /\ good[tab[CHOOSE i \in w : TRUE].id] = 0
                     THEN LET i == CHOOSE i \in w : TRUE IN         \* the connection is restored
                          /\ good' = [good EXCEPT ![tab[i].id] = c]
                          /\ tab' = [tab EXCEPT ![i].fd = c, ![i].rev = IF Forget THEN {} ELSE @]
                          /\ socks' = (IF CloseOld THEN socks \ {tab[i].fd} ELSE socks) \cup {c}
                          /\ UNCHANGED <<thr, q, ids, said>>
                     ELSE LET k == IF w = {} THEN tab ELSE Drop(CHOOSE i \in w : TRUE)
                              o == IF w = {} THEN {} ELSE {tab[CHOOSE i \in w : TRUE].fd} IN
                          IF Max >= 0 /\ Len(k) >= Max THEN tab' = k /\ socks' = socks \ o /\ UNCHANGED <<good, thr, q, ids, said>>
                          ELSE /\ ids' = ids + 1 /\ tab' = Append(k, Entry(h, c, ids + 1)) /\ good' = Set(good, ids + 1, c)
                               /\ socks' = (socks \ o) \cup {c} /\ UNCHANGED <<thr, q, said>>
          /\ UNCHANGED <<cli, nc, out, heard, np, nf, wrong, due>>
Events == /\ phase = "events"
          /\ LET ev == {i \in 1..Len(tab) : tab[i].rev /= {}} IN
             IF ev = {} THEN Go("queue") /\ UNCHANGED <<tab, socks, said, wrong>>
             ELSE LET i == CHOOSE i \in ev : \A j \in ev : i <= j IN
                  /\ UNCHANGED phase
                  /\ IF "hup" \in tab[i].rev
                     THEN tab' = Drop(i) /\ socks' = socks \ {tab[i].fd} /\ wrong' = (wrong \/ (tab[i].fd /= 0 /\ cli[tab[i].fd].open)) /\ UNCHANGED said
                     ELSE tab' = [tab EXCEPT ![i].p = 1, ![i].rev = {}] /\ said' = said \ {tab[i].fd} /\ UNCHANGED <<socks, wrong>>
          /\ UNCHANGED <<good, thr, q, cli, back, nc, out, heard, ids, np, nf, due>>
Queue == /\ phase = "queue" /\ Go("fin")
         /\ \/ UNCHANGED <<np, q, due>>
            \/ /\ np < Prods /\ np' = np + 1
               /\ LET on == {tab[i].id : i \in {k \in 1..Len(tab) : tab[k].th = "on"}} IN
                  /\ q' = [x \in DOMAIN q |-> IF x \in on THEN Append(q[x], np + 1) ELSE q[x]]
                  /\ due' = [x \in DOMAIN due |-> IF x \in on THEN [due[x] EXCEPT !.from = Append(@, np + 1)] ELSE due[x]]
         /\ UNCHANGED <<tab, good, thr, socks, world, out, heard, ids, nf, wrong>>
\* ---- the client threads
Mine(x) == x \in Ids /\ tab[At(x)].th = "on"
rest == <<socks, world, phase, heard, ids, np, wrong>>
Take == \E x \in DOMAIN thr :
          /\ Mine(x) /\ thr[x].st = "idle" /\ q[x] /= <<>>
          /\ thr' = [thr EXCEPT ![x].st = "send", ![x].pos = 0, ![x].tries = 0]
          /\ UNCHANGED <<tab, good, q, out, nf, due, rest>>
Write == \E x \in DOMAIN thr :
          /\ Mine(x) /\ thr[x].st = "send" /\ cli[thr[x].fd].open
          /\ out' = [out EXCEPT ![thr[x].fd] = Append(@, <<x, Head(q[x]), thr[x].pos + 1>>)]
          /\ IF thr[x].pos + 1 = Packets
             THEN thr' = [thr EXCEPT ![x].st = "idle", ![x].pos = 0] /\ q' = [q EXCEPT ![x] = Tail(@)] /\ due' = [due EXCEPT ![x].done = Append(@, Head(q[x]))]
             ELSE thr' = [thr EXCEPT ![x].pos = @ + 1] /\ UNCHANGED <<q, due>>
          /\ UNCHANGED <<tab, good, nf, rest>>
GiveUp(x) == tab' = [tab EXCEPT ![At(x)].th = "fin"]
Fail == \E x \in DOMAIN thr :
          /\ Mine(x) /\ thr[x].st = "send"
          /\ IF cli[thr[x].fd].open THEN nf < Faults /\ nf' = nf + 1 ELSE UNCHANGED nf
          /\ good' = [good EXCEPT ![x] = 0]
          /\ IF thr[x].tries = Tries THEN GiveUp(x) /\ UNCHANGED thr ELSE thr' = [thr EXCEPT ![x].st = "sleep", ![x].fd = 0] /\ UNCHANGED tab
          /\ UNCHANGED <<q, out, due, rest>>
Wake == \E x \in DOMAIN thr :
          /\ Mine(x) /\ thr[x].st = "sleep"
          /\ IF good[x] /= 0 THEN thr' = [thr EXCEPT ![x].st = "send", ![x].fd = good[x], ![x].pos = 0] /\ UNCHANGED tab
             ELSE thr' = [thr EXCEPT ![x].tries = @ + 1] /\ IF thr[x].tries + 1 = Tries THEN GiveUp(x) ELSE UNCHANGED tab
          /\ UNCHANGED <<good, q, out, nf, due, rest>>
Server == Fin \/ Dirty \/ Spawn \/ Poll \/ Accept \/ Events \/ Queue
Next == Dial \/ Leave \/ Server \/ Take \/ Write \/ Fail \/ Wake
Spec == Init /\ [][Next]_vars
Live == Spec /\ WF_vars(Server) /\ WF_vars(Take) /\ WF_vars(Write \/ Fail) /\ WF_vars(Wake)

\* ---- C21
OnePerHost == \A i, j \in 1..Len(tab) : tab[i].h = tab[j].h => i = j
Bounded == Max >= 0 => Len(tab) <= Max
\* a socket is open if and only if it is of an entry of the table
NoLeak == socks = {tab[i].fd : i \in 1..Len(tab)} \ {0}
NoneDropped == ~wrong
\* ---- C22
\* a thread writes to a socket that is open, and of its own host
OwnSocket == \A x \in DOMAIN thr : (Mine(x) /\ thr[x].st = "send") => thr[x].fd \in socks /\ cli[thr[x].fd].h = tab[At(x)].h /\ good[x] = thr[x].fd
Alone == \A c \in DOMAIN out : \A i, j \in 1..Len(out[c]) : out[c][i][1] = out[c][j][1]
\* on a connection: products in order, whole but for the last, from their beginning
Runs == \A c \in DOMAIN out : \A i \in 1..Len(out[c]) :
  IF i = 1 THEN out[c][i][3] = 1
  ELSE \/ out[c][i][2] = out[c][i - 1][2] /\ out[c][i][3] = out[c][i - 1][3] + 1
       \/ out[c][i][2] > out[c][i - 1][2] /\ out[c][i][3] = 1 /\ out[c][i - 1][3] = Packets
InOrder == \A x \in DOMAIN due : due[x].done \o q[x] = due[x].from
\* nothing waits for ever: whoever stays gets all
AllSent == <>[](\A x \in DOMAIN q : (Mine(x) /\ good[x] /= 0 /\ cli[good[x]].open) => q[x] = <<>>)
=============================================================================
