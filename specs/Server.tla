----------------------------- MODULE Server -----------------------------
(* The network server: who is connected, what protocol each client gets, and  *)
(* what is delivered to each. The state is that of a server that has caught   *)
(* up with everything asked of it:                                            *)
(*   ent   host -> its connection                                             *)
(*           c      the connection, 0 if it is broken                         *)
(*           p      protocol: 0 not identified, 1 NBS1, 2 NBS2, 4 EMWIN       *)
(*           th     "new", "run", "wait" (broken, waiting for the host to     *)
(*                  connect again), "back" (it has, and was not noticed yet)  *)
(*           tries  times it was found broken since the last whole product    *)
(*           todo   products to send, the first of them being sent            *)
(*           got    bytes of the first one that this connection was sent      *)
(*   bud   connection -> bytes that it still takes, -1 no limit               *)
(*   log   connection -> what it was sent: <<product, bytes>> ...             *)
(*   shut  the connections that the server closed                             *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Served,        \* the protocols being served
          MaxClients,    \* limit of connections, -1 none
          Retry,         \* times that a broken connection is waited for
          Hard,          \* limit of the products queued for a client, 0 none
          Denied,        \* hosts not allowed
          Size(_, _),    \* bytes that the product takes in the protocol
          Entitled(_, _, _)   \* host, protocol, product
ASSUME Served \subseteq {1, 2, 4}
Empty == [ent |-> <<>>, bud |-> <<>>, log |-> <<>>, shut |-> {}]
Hosts(s) == DOMAIN s.ent
Set(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
\* ---- what a message says of the protocol. Anything else means the default
ProtocolOf(msg) == CASE msg = <<78, 66, 83, 49>> -> 1
                     [] msg = <<78, 66, 83, 50>> -> 2
                     [] OTHER -> 4
Fresh(c) == [c |-> c, p |-> 0, th |-> "new", tries |-> 0, todo |-> <<>>, got |-> 0]
\* ---- the server gives up a connection, or a host
Remove(s, h) == [s EXCEPT !.ent = Without(s.ent, h), !.shut = @ \cup ({s.ent[h].c} \ {0})]
\* ---- delivery: as much as the connection takes
Extend(g, p, n) == IF n = 0 THEN g
                   ELSE IF g /= <<>> /\ g[Len(g)][1] = p /\ g[Len(g)][3] = FALSE THEN [g EXCEPT ![Len(g)] = <<p, @[2] + n, FALSE>>]
                   ELSE Append(g, <<p, n, FALSE>>)
Whole(g) == IF g = <<>> THEN g ELSE [g EXCEPT ![Len(g)] = <<@[1], @[2], TRUE>>]
RECURSIVE Flow(_, _, _)
Flow(e, b, g) ==
  IF e.th /= "run" \/ e.todo = <<>> THEN [e |-> e, b |-> b, g |-> g]
  ELSE LET h == Head(e.todo)
           rest == Size(h, e.p) - e.got IN
       IF b = -1 \/ b >= rest
       THEN Flow([e EXCEPT !.todo = Tail(@), !.got = 0, !.tries = 0], IF b = -1 THEN b ELSE b - rest, Whole(Extend(g, h, rest)))
       ELSE [e |-> [e EXCEPT !.got = @ + b], b |-> 0, g |-> Extend(g, h, b)]
Deliver(s, h) ==
  IF h \notin Hosts(s) \/ s.ent[h].c = 0 THEN s
  ELSE LET c == s.ent[h].c
           r == Flow(s.ent[h], s.bud[c], s.log[c]) IN
       [s EXCEPT !.ent = Set(@, h, r.e), !.bud = Set(@, c, r.b), !.log = Set(@, c, r.g)]
RECURSIVE DeliverAll(_, _)
DeliverAll(s, hs) == IF hs = {} THEN s ELSE LET h == CHOOSE x \in hs : TRUE IN DeliverAll(Deliver(s, h), hs \ {h})
\* ---- identification
Identify(s, h, p) == IF p \in Served THEN [s EXCEPT !.ent = Set(@, h, [s.ent[h] EXCEPT !.p = p, !.th = "run"])] ELSE Remove(s, h)
HostOf(s, c) == {h \in Hosts(s) : s.ent[h].c = c}
Hears(s, c, msg) == IF msg = <<>> \/ HostOf(s, c) = {} THEN s
                    ELSE LET h == CHOOSE x \in HostOf(s, c) : TRUE IN IF s.ent[h].th = "new" THEN Identify(s, h, ProtocolOf(msg)) ELSE s
TimeOut(s, h) == IF h \in Hosts(s) /\ s.ent[h].th = "new" THEN Identify(s, h, 4) ELSE s
\* ---- connections
Known(s, c) == [s EXCEPT !.bud = Set(@, c, -1), !.log = Set(@, c, <<>>)]
Add(s, h, c) == [s EXCEPT !.ent = Set(@, h, Fresh(c))]
Connect(t, h, c) ==
  LET s == Known(t, c) IN
  IF h \in Hosts(s) /\ s.ent[h].th = "wait" THEN [s EXCEPT !.ent = Set(@, h, [s.ent[h] EXCEPT !.c = c, !.th = "back", !.got = 0])]
  ELSE LET u == IF h \in Hosts(s) THEN Remove(s, h) ELSE s IN      \* the one it had is gone
       IF h \in Denied THEN [u EXCEPT !.shut = @ \cup {c}]
       ELSE IF MaxClients >= 0 /\ Cardinality(Hosts(u)) >= MaxClients THEN [u EXCEPT !.shut = @ \cup {c}]
       ELSE Add(u, h, c)
HangUp(s, c) == LET hs == HostOf(s, c) IN IF hs = {} THEN s ELSE LET h == CHOOSE x \in hs : TRUE IN [s EXCEPT !.ent = Without(@, h)]
Takes(s, c, n) == LET t == [s EXCEPT !.bud = Set(@, c, n)] IN DeliverAll(t, HostOf(t, c))
\* a write that does not go through
Blocked(s, c) == \E h \in HostOf(s, c) : s.ent[h].th = "run" /\ s.ent[h].todo /= <<>>
Break(s, c) ==
  LET h == CHOOSE x \in HostOf(s, c) : TRUE
      e == s.ent[h] IN
  IF e.tries = Retry THEN Remove(s, h)
  ELSE [s EXCEPT !.ent = Set(@, h, [e EXCEPT !.c = 0, !.th = "wait", !.got = 0]), !.shut = @ \cup {c}]
\* the time to look at a broken connection again
Look(s, h) ==
  LET e == s.ent[h] IN
  CASE e.th = "back" -> Deliver([s EXCEPT !.ent = Set(@, h, [e EXCEPT !.th = "run"])], h)
    [] e.th = "wait" -> IF e.tries + 1 = Retry THEN Remove(s, h) ELSE [s EXCEPT !.ent = Set(@, h, [e EXCEPT !.tries = @ + 1])]
    [] OTHER -> s
RECURSIVE LookAll(_, _)
LookAll(s, hs) == IF hs = {} THEN s ELSE LET h == CHOOSE x \in hs : TRUE IN LookAll(Look(s, h), hs \ {h})
\* ---- products
Queued(e) == IF e.todo = <<>> THEN 0 ELSE Len(e.todo) - 1
Refused(e) == Hard > 0 /\ Queued(e) >= Hard
Gets(s, h, pid) == s.ent[h].th /= "new" /\ Entitled(h, s.ent[h].p, pid) /\ ~Refused(s.ent[h])
Announce(s, pid) ==
  LET hs == {h \in Hosts(s) : Gets(s, h, pid)}
      t == [s EXCEPT !.ent = [h \in Hosts(s) |-> IF h \in hs THEN [s.ent[h] EXCEPT !.todo = Append(@, pid)] ELSE s.ent[h]]] IN
  DeliverAll(t, hs)
=============================================================================
