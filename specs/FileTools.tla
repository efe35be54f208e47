------------------------------ MODULE FileTools ------------------------------
(* The programs that take a product from its file and put it in an archive,   *)
(* or before another program: nbsppipe, nbspcat, nbspfile, nbspz, nbspunz.    *)
(*                                                                            *)
(* A run is <<byte, how many>>, data are a sequence of runs, and a file is a  *)
(* sequence of parts: data as they are (z = 0), or a zlib stream of data      *)
(* (z: its second byte), or bytes that begin like one and are not (z = Bad).  *)
EXTENDS Integers, Sequences
CONSTANTS CCB,          \* bytes that come before the wmo header
          Page,         \* of nbsppipe and nbspcat
          BigPage,      \* of nbspfile
          ZPage,        \* of nbspfile when it compresses
          Piece         \* what nbspunz can decompress at once
Bad == 1000
ZMark == 218            \* frames of the best compression: what nbspunz looks for
LF == 10
RECURSIVE Size(_), Drop(_, _), Take(_, _), Join(_, _), Norm(_), PosLF(_, _)
Size(d) == IF d = <<>> THEN 0 ELSE Head(d)[2] + Size(Tail(d))
Drop(d, k) == IF k = 0 \/ d = <<>> THEN d
              ELSE IF Head(d)[2] <= k THEN Drop(Tail(d), k - Head(d)[2])
              ELSE <<<<Head(d)[1], Head(d)[2] - k>>>> \o Tail(d)
Take(d, k) == IF k = 0 \/ d = <<>> THEN <<>>
              ELSE IF Head(d)[2] <= k THEN <<Head(d)>> \o Take(Tail(d), k - Head(d)[2])
              ELSE <<<<Head(d)[1], k>>>>
\* runs of the same byte become one
Join(d, e) == IF d = <<>> THEN e ELSE IF e = <<>> THEN d
              ELSE LET n == Len(d) IN
                   IF d[n][1] = e[1][1] THEN SubSeq(d, 1, n - 1) \o <<<<e[1][1], d[n][2] + e[1][2]>>>> \o Tail(e)
                   ELSE d \o e
Norm(d) == IF d = <<>> THEN d ELSE Join(<<Head(d)>>, Norm(Tail(d)))
\* where the n-th line ends
PosLF(d, n) == IF d = <<>> THEN 0
               ELSE IF Head(d)[1] = LF /\ Head(d)[2] >= n THEN n
               ELSE LET r == PosLF(Tail(d), IF Head(d)[1] = LF THEN n - Head(d)[2] ELSE n)
                    IN IF r = 0 THEN 0 ELSE r + Head(d)[2]
First(d) == IF d = <<>> THEN 0 ELSE d[1][1]
Alpha(b) == b \in 65..90 \/ b \in 97..122

Raw(d) == IF d = <<>> THEN <<>> ELSE <<[z |-> 0, d |-> d]>>
Cat(f, g) == IF f = <<>> THEN g ELSE IF g = <<>> THEN f
             ELSE LET n == Len(f) IN
                  IF f[n].z = 0 /\ g[1].z = 0 THEN SubSeq(f, 1, n - 1) \o Raw(Join(f[n].d, g[1].d)) \o Tail(g)
                  ELSE f \o g
IsRaw(f) == f = <<>> \/ (Len(f) = 1 /\ f[1].z = 0)
Data(f) == IF f = <<>> THEN <<>> ELSE f[1].d
Fail == [ok |-> FALSE, out |-> <<>>]
Done(f) == [ok |-> TRUE, out |-> f]

\* around a product, for gempak; the number is <<high, low>> half words
Dig(n) == <<48 + n, 1>>
Header(seq) == LET n == ((seq[1] % 1000) * 536 + seq[2]) % 1000
               IN Norm(<<<<1, 1>>, <<13, 2>>, <<10, 1>>, Dig(n \div 100), Dig((n \div 10) % 10), Dig(n % 10), <<32, 1>>, <<13, 2>>, <<10, 1>>>>)
Trailer == <<<<13, 2>>, <<10, 1>>, <<3, 1>>>>

-----------------------------------------------------------------------------
(* nbsppipe, and each command of nbspcat                                      *)
Pipe(o, f) ==
  LET cut == IF o.n THEN 0 ELSE o.c
      fst == IF o.g THEN Raw(Header(o.seq)) ELSE <<>>
      lst == IF o.g THEN Raw(Trailer) ELSE <<>>
  IN IF cut = 0 THEN (IF f = <<>> THEN Fail ELSE Done(Cat(fst, Cat(f, lst))))
     ELSE IF Size(Data(f)) <= cut THEN Fail
     ELSE Done(Cat(fst, Cat(Raw(Drop(Data(f), cut)), lst)))

(* nbspfile: the header, then the rest; or the header and then all of it,     *)
(* compressed as it comes from the satellite.                                 *)
RECURSIVE Frames(_, _, _)
Frames(d, n, z) == IF d = <<>> THEN <<>> ELSE <<[z |-> z, d |-> Take(d, n)]>> \o Frames(Drop(d, n), n, z)
ZByte(level) == CASE level = 1 -> 1 [] level \in 2..5 -> 94 [] level = 6 -> 156 [] OTHER -> 218
File(o, f) ==
  LET d == Data(f)
      cut == IF o.n THEN 0 ELSE IF o.c # 0 THEN o.c ELSE IF Alpha(First(d)) THEN 0 ELSE CCB
      page == IF o.p # 0 THEN o.p ELSE IF o.z >= 0 THEN ZPage ELSE BigPage
      body == Drop(d, cut)
      end == PosLF(body, IF o.awips THEN 2 ELSE 1)       \* of the header
      known == (IF Size(d) < page THEN Size(d) ELSE page) - cut
      hd == Raw(Take(body, end))
      data == IF o.z > 0 THEN Frames(d, page, ZByte(o.z)) ELSE Raw(Drop(body, end))
      main == IF o.w THEN data ELSE Cat(hd, data)
  IN IF known <= 0 \/ end = 0 \/ end >= known THEN Fail
     ELSE IF o.t \/ o.w THEN Done(main)
     ELSE Done(Cat(Raw(Header(o.seq)), Cat(main, Raw(Trailer))))

(* nbspz: the file, compressed as one                                         *)
Zip(level, f) == IF level = 0 THEN Done(f) ELSE Done(<<[z |-> ZByte(level), d |-> Data(f)]>>)

(* nbspunz: from the first frame on; what comes after the frames is copied.   *)
RECURSIVE Inflate(_, _, _), From(_)
From(f) == IF f = <<>> \/ Head(f).z \in {ZMark, Bad} THEN f ELSE From(Tail(f))
\* n: how many frames at most (0: all of them)
Inflate(f, n, k) ==
  IF f = <<>> \/ (n > 0 /\ k = n) THEN Done(<<>>)
  ELSE IF Head(f).z = Bad THEN Fail
  ELSE IF Head(f).z # ZMark THEN Done(f)
  ELSE LET r == Inflate(Tail(f), n, k + 1) IN
       IF r.ok THEN Done(Cat(Raw(Head(f).d), r.out)) ELSE Fail
Unzip(skip, n, f) ==
  LET g == From(f) IN
  IF g = <<>> THEN Fail
  ELSE IF g[1].z = Bad THEN Fail
  ELSE LET s == Size(g[1].d)  p == IF s < Piece THEN s ELSE Piece IN
       IF skip > 0 /\ skip >= p THEN Fail
       ELSE Inflate(<<[g[1] EXCEPT !.d = Drop(@, skip)]>> \o Tail(g), n, 0)

-----------------------------------------------------------------------------
(* What was in the output before, and what is after                           *)
After(append, old, r) == IF append THEN Cat(old, r.out) ELSE r.out
=============================================================================
