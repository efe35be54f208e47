----------------------------- MODULE MCServer -----------------------------
(* All short histories of the server: connections, messages, products, slow   *)
(* and broken connections, time. What was announced to each host while it was *)
(* being served (due) is compared with what it was sent whole (done).         *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS HostSet, Conns, Prods, Max, Tries, Limit, Full
VARIABLES s, due, n, pn, act
vars == <<s, due, n, pn, act>>
SizeM(pid, p) == IF p = 4 THEN 1 ELSE 2
\* a host is not entitled to one of the products
EntitledM(h, p, pid) == ~(h = 3 /\ pid = 2)
S == INSTANCE Server WITH Served <- {1, 4}, MaxClients <- Max, Retry <- Tries, Hard <- Limit, Denied <- {9}, Size <- SizeM, Entitled <- EntitledM
Init == s = S!Empty /\ due = [h \in HostSet |-> <<>>] /\ n = 0 /\ pn = 0 /\ act = <<>>
Msgs == {<<>>, <<78, 66, 83, 49>>, <<78, 66, 83, 50>>, <<65>>}
Live == {s.ent[h].c : h \in S!Hosts(s)} \ {0}
\* products that were sent whole to the present entry of the host, or earlier
Running(h) == h \in S!Hosts(s) /\ s.ent[h].th /= "new"
Kept(t, h) == h \in S!Hosts(t) /\ h \in S!Hosts(s) /\ (s.ent[h].th = "wait" \/ t.ent[h].c = s.ent[h].c \/ t.ent[h].c = 0)
Upd(t) == s' = t /\ due' = [h \in HostSet |-> IF Kept(t, h) THEN due[h] ELSE <<>>]
Connect == \E h \in HostSet \cup {9}, m \in Msgs : n < Conns /\ n' = n + 1 /\ Upd(S!Hears(S!Connect(s, h, n + 1), n + 1, m)) /\ act' = <<"conn", h>> /\ UNCHANGED pn
Send == \E c \in Live, m \in Msgs \ {<<>>} : Upd(S!Hears(s, c, m)) /\ act' = <<"send", CHOOSE h \in S!HostOf(s, c) : TRUE>> /\ UNCHANGED <<n, pn>>
Close == \E c \in Live : Upd(S!HangUp(s, c)) /\ act' = <<"close", CHOOSE h \in S!HostOf(s, c) : TRUE>> /\ UNCHANGED <<n, pn>>
Hold == \E c \in Live, b \in {-1, 0, 1, 3} : Upd(S!Takes(s, c, b)) /\ act' = <<"hold", CHOOSE h \in S!HostOf(s, c) : TRUE>> /\ UNCHANGED <<n, pn>>
Fail == \E c \in Live : S!Blocked(s, c) /\ Upd(S!Break(s, c)) /\ act' = <<"break", CHOOSE h \in S!HostOf(s, c) : TRUE>> /\ UNCHANGED <<n, pn>>
Wake == Upd(S!LookAll(s, S!Hosts(s))) /\ act' = <<"all">> /\ UNCHANGED <<n, pn>>
Out == \E h \in S!Hosts(s) : s.ent[h].th = "new" /\ Upd(S!TimeOut(s, h)) /\ act' = <<"out", h>> /\ UNCHANGED <<n, pn>>
Announce == /\ pn < Prods /\ pn' = pn + 1
            /\ s' = S!Announce(s, pn + 1) /\ due' = [h \in HostSet |-> IF h \in S!Hosts(s) /\ S!Gets(s, h, pn + 1) THEN Append(due[h], pn + 1) ELSE due[h]]
            /\ act' = <<"all">> /\ UNCHANGED n
Next == Connect \/ Send \/ Close \/ Hold \/ Fail \/ Wake \/ Out \/ Announce
Spec == Init /\ [][Next]_vars

\* ---- C20
OnlyServed == \A h \in S!Hosts(s) : s.ent[h].p \in {0, 1, 4} /\ (s.ent[h].th = "new") = (s.ent[h].p = 0)
SameProtocol == [][\A h \in S!Hosts(s) : (s.ent[h].p /= 0 /\ h \in DOMAIN s'.ent /\ s'.ent[h].c \in {s.ent[h].c, 0}) => s'.ent[h].p = s.ent[h].p]_vars
\* ---- C21
Bounded == Max >= 0 => Cardinality(S!Hosts(s)) <= Max
Allowed == 9 \notin S!Hosts(s)
OneEach == \A h, k \in S!Hosts(s) : (h /= k /\ s.ent[h].c /= 0) => s.ent[h].c /= s.ent[k].c
NotShut == \A h \in S!Hosts(s) : s.ent[h].c \notin s.shut
\* ---- C22
Increasing(g) == \A i \in 1..Len(g) - 1 : g[i][1] < g[i + 1][1] /\ g[i][3]
Sizes == \A c \in DOMAIN s.log : Increasing(s.log[c]) /\ \A i \in 1..Len(s.log[c]) : s.log[c][i][3] => s.log[c][i][2] \in {1, 2}
Suffix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, Len(b) - Len(a) + 1, Len(b)) = a
\* what is left to be sent is the end of what is due, and the rest was sent whole
Pending == \A h \in S!Hosts(s) : s.ent[h].th /= "new" =>
  /\ Suffix(s.ent[h].todo, due[h])
  /\ Limit > 0 => Len(s.ent[h].todo) <= Limit + 1
WholeOf(c) == {s.log[c][i][1] : i \in {k \in 1..Len(s.log[c]) : s.log[c][k][3]}}
Exact == \A h \in S!Hosts(s) : s.ent[h].th /= "new" =>
  \A i \in 1..Len(due[h]) - Len(s.ent[h].todo) : \E c \in DOMAIN s.log : due[h][i] \in WholeOf(c)
Resumes == \A h \in S!Hosts(s) : s.ent[h].th \in {"wait", "back"} => s.ent[h].todo /= <<>> /\ s.ent[h].got = 0
\* only what is done to a host changes what it gets
Apart == [][act'[1] = "all" \/ \A h \in S!Hosts(s) : h /= act'[2] => (h \in DOMAIN s'.ent /\ s'.ent[h] = s.ent[h])]_vars
Unlimited == -1
Small == TLCGet("level") <= Full
=============================================================================
