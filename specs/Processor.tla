----------------------------- MODULE Processor -----------------------------
(***************************************************************************)
(* What the processor thread does with each product taken from the         *)
(* processing queue (nbsp.c): the memory used for retransmissions, the     *)
(* file or memory spool, the logs, the statistics and the announcements.   *)
(* Operators on values:                                                    *)
(*   s = [rtx, ring, mem]   the memory of products (RtxDb), and the spool  *)
(*   c = the configuration: [fs, strip, default, limN]                     *)
(*         fs       file spool (otherwise the memory spool)                *)
(*         strip    communications control blocks are not saved            *)
(*         default  what to do with retransmissions if there is no memory  *)
(*         slots    number of products kept in the file spool, 0 no limit  *)
(*   p = the product as assembled (Ingest), with fields                    *)
(*         seq orig ok ccb unz body                                        *)
(*   e = what the environment decides:                                     *)
(*         remember  the name is accepted for the memory of products       *)
(*         filter, server   the name is accepted for those queues          *)
(*         canstore  the file can be created                               *)
(*         fails     number of times the memory spool reports lack of room *)
(*   path, key, uz     the names of the product, and decompression        *)
(***************************************************************************)
LOCAL INSTANCE Naturals
LOCAL INSTANCE Sequences
LOCAL INSTANCE TLC
R == INSTANCE RtxDb
S == INSTANCE Spool
CCB == 24
W0 == <<0, 0>>

(***************************************************************************)
(* The content: [ok, d].  Blocks [z, d] of a product to be expanded are    *)
(* decompressed one by one; uz[d] is <<>> if d can not be decompressed,   *)
(* otherwise a sequence of one element, the data.                          *)
(***************************************************************************)
RECURSIVE Expand(_, _, _)
Expand(bl, i, uz) ==
  IF i > Len(bl) THEN [ok |-> TRUE, d |-> <<>>]
  ELSE LET u == IF bl[i].z THEN uz[bl[i].d] ELSE <<bl[i].d>> IN
       IF u = <<>> THEN [ok |-> FALSE, d |-> <<>>]
       ELSE LET r == Expand(bl, i + 1, uz) IN [r EXCEPT !.d = u[1] \o @]
Content(c, p, uz) ==
  LET x == IF p.unz THEN Expand(p.body, 1, uz) ELSE [ok |-> TRUE, d |-> p.body] IN
  IF ~x.ok \/ ~c.strip \/ ~p.ccb THEN x
  ELSE IF Len(x.d) <= CCB THEN [ok |-> FALSE, d |-> <<>>]
  ELSE [ok |-> TRUE, d |-> SubSeq(x.d, CCB + 1, Len(x.d))]

Nothing == [bad |-> 0, c |-> 0, ip |-> 0, i |-> 0, r |-> 0, missing |-> FALSE, log |-> FALSE,
            stored |-> FALSE, d |-> <<>>, evict |-> <<>>, filter |-> FALSE, server |-> FALSE, writes |-> 0]

\* Storing: [s, o]
Keep(s, c, p, e, path, key, uz) ==
  LET x == Content(c, p, uz)
      failed == [s |-> s, o |-> [Nothing EXCEPT !.bad = 1]]
      done(s2) == [s |-> IF e.remember THEN [s2 EXCEPT !.rtx = R!Put(@, p.seq, R!Ok)] ELSE s2,
                   o |-> [Nothing EXCEPT !.stored = TRUE, !.d = x.d, !.filter = e.filter, !.server = e.server]]
  IN IF ~x.ok THEN failed
     ELSE IF c.fs THEN
       IF ~e.canstore THEN failed
       ELSE IF c.slots = 0 THEN done(s)
       ELSE LET r == done([s EXCEPT !.ring = S!Insert(@, path)]) IN [r EXCEPT !.o.evict = S!Evicted(s.ring)]
     ELSE LET a == S!Store(s.mem, key, x.d, Len(x.d), e.fails)
              s2 == [s EXCEPT !.mem = a.m]
              r == IF a.ok THEN done(s2) ELSE [failed EXCEPT !.s = s2]
          IN [r EXCEPT !.o.writes = a.w]

Process(s, c, p, e, path, key, uz) ==
  IF ~p.ok
  THEN [s |-> IF e.remember THEN [s EXCEPT !.rtx = R!Put(@, p.seq, R!Fail)] ELSE s,
        o |-> [Nothing EXCEPT !.missing = TRUE]]
  ELSE IF p.orig = W0 THEN Keep(s, c, p, e, path, key, uz)
  ELSE
  LET look == IF e.remember THEN R!Lookup(s.rtx, p.orig) ELSE R!Unknown
      mark(r) == [r EXCEPT !.o.c = 1, !.o.ip = 1, !.o.log = TRUE, !.o.i = (IF look = R!Ok THEN 1 ELSE 0)]
      rec(r) == [r EXCEPT !.o.r = 1]
  IN IF look = R!Ok
     THEN mark([s |-> [s EXCEPT !.rtx = R!Put(@, p.seq, R!Ok)], o |-> Nothing])
     ELSE IF look = R!Fail THEN rec(mark(Keep(s, c, p, e, path, key, uz)))
     ELSE IF look = R!Disabled /\ ~c.default THEN mark([s |-> s, o |-> Nothing])
     ELSE mark(Keep(s, c, p, e, path, key, uz))
=============================================================================
