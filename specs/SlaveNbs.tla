------------------------------ MODULE SlaveNbs ------------------------------
(* A slave that receives whole products from other servers: the packets, and *)
(* the reassembly of the product in progress of each connection.              *)
EXTENDS Integers, Sequences, SequencesExt
CONSTANTS Refuse(_),        \* names that the patterns do not accept
          Expand(_)         \* names kept as they are sent even if compressed: FALSE
Block == 65536
HeadSize == 66                  \* envelope (12) and header (54)
Word(s, i) == <<s[i+1] * 256 + s[i+2], s[i+3] * 256 + s[i+4]>>
Half(s, i) == s[i+1] * 256 + s[i+2]
IntWord(n) == <<n \div 65536, n % 65536>>
Zeros(n) == [i \in 1..n |-> 0]
Be4(w) == <<w[1] \div 256, w[1] % 256, w[2] \div 256, w[2] % 256>>
Be2(n) == <<n \div 256, n % 256>>
Least(S) == CHOOSE x \in S : \A y \in S : x <= y

\* ---- the master: product p = [seq, codes, name, size]
Blocks(size) == (size + Block - 1) \div Block
SizeOf(size, k) == IF k < Blocks(size) THEN Block ELSE size - (k - 1) * Block
\* the header of block k, the checksum of the envelope apart
HeaderOk(h, p, k) ==
  LET n == SizeOf(p.size, k) IN
  /\ SubSeq(h, 1, 4) = Be4(<<0, 1>>) /\ SubSeq(h, 5, 8) = Be4(IntWord(54 + n))
  /\ SubSeq(h, 13, 66) = Be4(p.seq) \o p.codes \o p.name \o Zeros(37 - Len(p.name)) \o <<0>> \o Be2(Blocks(p.size)) \o Be2(k) \o Be4(IntWord(n))

\* ---- the receiver
\* h: the first 66 bytes of a packet of n bytes of which len arrive before the end
Sound(h, n, len) == /\ len >= n /\ Word(h, 0) = <<0, 1>>
                    /\ Word(h, 4) = IntWord(n - 12) /\ Word(h, 62) = IntWord(n - HeadSize)
Field(h) == LET f == SubSeq(h, 21, 56) z == {i \in 1..36 : f[i] = 0} IN IF z = {} THEN f ELSE SubSeq(f, 1, Least(z) - 1)
Unpacked(h, part) == [seq |-> Word(h, 12), codes |-> SubSeq(h, 17, 20), name |-> Field(h), zip |-> h[58], num |-> Half(h, 58), blk |-> Half(h, 60), part |-> part]

Where(s, c, from) == {i \in from..Len(s) : s[i] = c}
Before(s, c) == LET w == Where(s, c, 1) IN IF w = {} THEN <<-1>> ELSE SubSeq(s, 1, Least(w) - 1)
Upper(c) == IF c >= 97 /\ c <= 122 THEN c - 32 ELSE c
\* station_ttaaii[-awips|+other].rest
NameOk(s) ==
  /\ Where(s, 46, 1) /= {}
  /\ LET f == Before(s, 46) IN
     /\ Len(f) <= 18 /\ Where(f, 95, 1) /= {}
     /\ Len(Before(f, 95)) <= 4
     /\ LET r == SubSeq(f, Least(Where(f, 95, 1)) + 1, Len(f))
            sep == IF Where(r, 45, 1) /= {} THEN 45 ELSE 43 IN
        IF Where(r, sep, 1) = {} THEN Len(r) <= 6
        ELSE LET i == Least(Where(r, sep, 1)) IN i - 1 <= 6 /\ Len(r) - i <= 6
FName(s) == Before(s, 46)
Path(s) == <<47>> \o Before(s, 95) \o <<47>> \o s

Idle == [on |-> FALSE]
None == [st |-> 0, out |-> <<>>, tx |-> 0, mi |-> 0, co |-> 0, re |-> 0]
Handed(a, full) == [ok |-> full, seq |-> a.seq, codes |-> a.codes, name |-> a.name, parts |-> a.parts, unz |-> a.unz, zs |-> a.zs]

\* A packet that starts a product: the new one and the effects. exists: files
\* already there, reject: products already there are not even started.
Start(a, p, exists, reject) ==
  LET u == IF a.on THEN [None EXCEPT !.out = <<Handed(a, FALSE)>>, !.mi = 1, !.tx = 1] ELSE [None EXCEPT !.tx = 1]
      new == [on |-> TRUE, seq |-> p.seq, codes |-> p.codes, name |-> p.name, n |-> p.num, got |-> 0, parts |-> <<>>, zs |-> <<>>,
              unz |-> p.zip /= 0 /\ Expand(p.name)] IN
  CASE ~NameOk(p.name) -> [a |-> Idle, go |-> FALSE, e |-> [u EXCEPT !.mi = @ + 1]]
    [] NameOk(p.name) /\ Refuse(p.name) -> [a |-> Idle, go |-> FALSE, e |-> [u EXCEPT !.re = 1, !.st = 2]]
    [] NameOk(p.name) /\ ~Refuse(p.name) /\ reject /\ Path(p.name) \in exists -> [a |-> Idle, go |-> FALSE, e |-> [u EXCEPT !.st = 2]]
    [] OTHER -> [a |-> new, go |-> TRUE, e |-> u]
\* Then the block itself.
Body(a, p, e, exists) ==
  IF ~a.on \/ a.seq /= p.seq THEN [a |-> a, e |-> [e EXCEPT !.st = 2]]
  ELSE IF p.blk - 1 /= a.got THEN [a |-> Idle, e |-> [e EXCEPT !.mi = @ + 1]]
  ELSE LET b == [a EXCEPT !.got = @ + 1, !.parts = Append(@, p.part), !.zs = Append(@, p.zip)] IN
       IF p.blk /= p.num THEN [a |-> b, e |-> e]
       ELSE IF b.n > b.got THEN [a |-> Idle, e |-> [e EXCEPT !.mi = @ + 1]]
       ELSE IF Path(b.name) \in exists THEN [a |-> Idle, e |-> e]
       ELSE [a |-> Idle, e |-> [e EXCEPT !.co = 1, !.out = Append(@, Handed(b, TRUE))]]
Take(a, p, exists, reject) ==
  IF p.blk = 1 THEN LET s == Start(a, p, exists, reject) IN IF s.go THEN Body(s.a, p, s.e, exists) ELSE [a |-> s.a, e |-> s.e]
  ELSE Body(a, p, None, exists)
=============================================================================
