------------------------------- MODULE RadGis --------------------------------
(* What nbspradinfo and nbspradgis make of a radar product.                   *)
(*                                                                            *)
(* Lengths are in metres, angles in thousandths of a degree, levels as they   *)
(* are printed.  A product is                                                 *)
(*   file   [alnum: does what follows the skipped bytes begin as a heading,   *)
(*           at: where the heading is, size: bytes from there on, wmo: is it  *)
(*           a heading, div: is the descriptor's divider there]               *)
(*   h      the fields of the header (days, secs, lat, lon, height, mode,     *)
(*           code, len: the message length)                                   *)
(*   body   [bz: compressed, and whether the stream is whole; size: bytes     *)
(*           when expanded; div, packet, scale, count: the number of radials, *)
(*           radials: those that are there, each [start, delta, len, runs]]   *)
EXTENDS Integers, Sequences
Gempak == 11
Heading == 30
Descr == 120
BodyHeader == 30
RLE == 44831       \* 0xaf1f
Digital == 16
\* --------------------------------------------------------------- the header
HeaderAt(f, skip) == skip + (IF f.alnum THEN 0 ELSE Gempak)
Readable(f, skip) == HeaderAt(f, skip) = f.at /\ f.wmo /\ f.size >= Heading + Descr
\* 0, 1 (an error) or 2 (compressed, and the caller asked for silence)
InfoStatus(f, skip, quiet) == IF ~Readable(f, skip) THEN 1 ELSE IF f.div THEN 0 ELSE IF quiet THEN 2 ELSE 1
Time(h) == <<h.days - 1 + h.secs \div 86400, h.secs % 86400>>
\* the civil date of a day since 1970
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthLen(y, m) == CASE m = 2 -> IF Leap(y) THEN 29 ELSE 28 [] m \in {4, 6, 9, 11} -> 30 [] OTHER -> 31
Before(y) == 365 * (y - 1970) + ((y - 1) \div 4 - 492) - ((y - 1) \div 100 - 19) + ((y - 1) \div 400 - 4)
RECURSIVE MonthOf(_, _, _)
MonthOf(y, m, d) == IF d < MonthLen(y, m) THEN <<y, m, d + 1>> ELSE MonthOf(y, m + 1, d - MonthLen(y, m))
Civil(n) == LET e == 1970 + n \div 366
                y == CHOOSE y \in e..(e + 2) : Before(y) <= n /\ n < Before(y + 1)
            IN MonthOf(y, 1, n - Before(y))
Name(awips, h) == LET t == Time(h)  c == Civil(t[1]) IN <<awips, c[1], c[2], c[3], t[2] \div 3600, (t[2] % 3600) \div 60>>
\* --------------------------------------------------------------- the levels
Bref == {19, 20, 94}
Rvel == {27, 99}
Rain == {78, 80}
Srvel == {56}
Products == Bref \cup Rvel \cup Rain \cup Srvel
RvelLevel  == <<-65, -64, -50, -36, -26, -20, -10, -1, 0, 10, 20, 26, 36, 50, 64, 65>>
SrvelLevel == <<-65, -50, -40, -30, -22, -10, -5, -1, 0, 5, 10, 22, 30, 40, 50, 65>>
RainLevel  == <<0, 5, 10, 25, 50, 75, 100, 125, 150, 175, 200, 250, 300, 400, 600, 800>>
\* whether the codes of this product mean something in this packet and mode
Known(p, packet, mode) ==
  IF packet = RLE THEN p \in {27, 56, 78, 80} \/ (p \in {19, 20} /\ mode \in {1, 2})
  ELSE p = 99 \/ (p = 94 /\ mode \in {1, 2})
Level(p, packet, mode, c) ==
  IF packet = RLE
  THEN CASE p \in Bref  -> IF mode = 2 THEN 5 * c ELSE 4 * c - 32
         [] p \in Rvel  -> RvelLevel[c + 1]
         [] p \in Rain  -> RainLevel[c + 1]
         [] p \in Srvel -> SrvelLevel[c + 1]
  ELSE IF p = 94 THEN c \div 2 - 32
       \* half a unit apart, towards zero
       ELSE IF c >= 128 THEN (c - 128) \div 2 ELSE -((128 - c) \div 2)
Range(p) == CASE p \in Bref -> <<1, 96>> [] p \in Rvel -> <<-64, 64>> [] p \in Rain -> <<5, 800>> [] p \in Srvel -> <<-50, 50>>
\* the range of levels that are wanted
Limits(p, o) == IF o.min # o.max THEN <<o.min, o.max>> ELSE Range(p)
\* ------------------------------------------------------------- the geometry
\* Into how many pieces of at most one km of arc a cell is cut.  One more or less
\* is as good when the last of them is a sliver.
Arc == 57295780                       \* thousandths of a degree times metres, for 1 km
CeilDiv(a, b) == (a + b - 1) \div b
AtLeast1(n) == IF n < 1 THEN 1 ELSE n
Pieces(d, r) == IF d = 0 THEN {0}
                ELSE LET v == d * r  e == v \div 300 + 1 IN
                     {AtLeast1(CeilDiv(v - e, Arc \div 100)), AtLeast1(CeilDiv(v + e, Arc \div 100))}
\* the cells of a run from r1 to r2: one km each; a bin each in digital data
RECURSIVE Km(_, _)
Km(r, r2) == IF r >= r2 THEN <<>> ELSE <<<<r, r + 1000>>>> \o Km(r + 1000, r2)
RECURSIVE Bins(_, _, _)
Bins(a, b, scale) == IF a >= b THEN <<>> ELSE <<<<a * scale, (a + 1) * scale>>>> \o Bins(a + 1, b, scale)
Cells(packet, a, b, scale) == IF packet = RLE THEN Km(a * scale, b * scale) ELSE Bins(a, b, scale)
\* <<code, level, from, to>> for each cell with data of the wanted levels
RECURSIVE RadialCells(_, _, _, _, _, _, _)
RadialCells(p, packet, mode, scale, lim, runs, at) ==
  IF runs = <<>> THEN <<>>
  ELSE LET n == Head(runs)[1]  c == Head(runs)[2]
           data == n > 0 /\ (packet = RLE \/ c >= 2)
           lv == IF data THEN Level(p, packet, mode, c) ELSE 0
           cs == IF data /\ lv >= lim[1] /\ lv <= lim[2] THEN Cells(packet, at, at + n, scale) ELSE <<>>
       IN [i \in 1..Len(cs) |-> <<c, lv, cs[i][1], cs[i][2]>>] \o RadialCells(p, packet, mode, scale, lim, Tail(runs), at + n)
HasData(packet, rad) == \E i \in 1..Len(rad.runs) : rad.runs[i][1] > 0 /\ (packet = RLE \/ rad.runs[i][2] >= 2)
\* ------------------------------------------------------------------ the body
RECURSIVE Need(_, _)
Need(rads, n) == IF n = 0 THEN 0 ELSE 6 + Head(rads).len + Need(Tail(rads), n - 1)
Fits(b) == b.size >= BodyHeader /\ b.count <= Len(b.radials) /\ BodyHeader + Need(b.radials, b.count) <= b.size
Sound(f, h, b) ==
  /\ h.len > Descr /\ f.size - Heading >= h.len           \* all of it is there
  /\ (~b.bz \/ b.whole) /\ b.size >= BodyHeader /\ b.div
  /\ b.packet \in {RLE, Digital} /\ h.code \in Products
  /\ Fits(b)
  /\ (\E i \in 1..b.count : HasData(b.packet, b.radials[i])) => Known(h.code, b.packet, h.mode)
\* what is drawn of a radial, before it is cut into pieces
Drawn(h, b, o, i) == IF b.radials[i].delta = 0 THEN <<>>
                     ELSE RadialCells(h.code, b.packet, h.mode, b.scale, Limits(h.code, o), b.radials[i].runs, 0)
Near(a, b, tol) == a - b <= tol /\ b - a <= tol
NearAngle(a, b, tol) == LET d == (a - b) % 360000 IN d <= tol \/ d >= 360000 - tol
AngTol == 60
\* the k-th of the n + 1 sides
Turn(rad, n, k, r) == IF k = n THEN (rad.start + rad.delta) * 100 ELSE rad.start * 100 + (IF r = 0 THEN 0 ELSE k * (Arc \div r))
\* a corner is <<distance, azimuth>>
Corner(q, r, a) == Near(q[1], r, 25 + r \div 400) /\ (r = 0 \/ NearAngle(q[2], a, AngTol))
\* is q piece k of n of the cell c of that radial?
Piece(q, rad, c, n, k) ==
  LET a1 == Turn(rad, n, k - 1, c[4])  a2 == Turn(rad, n, k, c[4]) IN
  /\ q.code = <<>> \/ q.code = <<c[1], c[2]>>
  /\ q.at = <<>> \/ (Corner(q.at[1], c[3], a1) /\ Corner(q.at[2], c[4], a1) /\ Corner(q.at[3], c[4], a2) /\ Corner(q.at[4], c[3], a2))
\* where the pieces of the cells of a radial may end, when they begin at i
RECURSIVE Ends(_, _, _, _)
Ends(ps, rad, cells, i) ==
  IF cells = <<>> THEN {i}
  ELSE UNION {IF i + n - 1 <= Len(ps) /\ \A k \in 1..n : Piece(ps[i + k - 1], rad, Head(cells), n, k)
              THEN Ends(ps, rad, Tail(cells), i + n) ELSE {} : n \in Pieces(rad.delta, Head(cells)[4])}
RECURSIVE AllEnds(_, _, _, _, _, _)
AllEnds(ps, h, b, o, j, I) ==
  IF j > b.count THEN I
  ELSE AllEnds(ps, h, b, o, j + 1, UNION {Ends(ps, b.radials[j], Drawn(h, b, o, j), i) : i \in I})
\* ps are the polygons of this product: all of them, none besides, in their order
Polygons(ps, h, b, o) == (Len(ps) + 1) \in AllEnds(ps, h, b, o, 1, {1})
\* ----------------------------------------------------------------- the files
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
\* the box around points <<x, y>>
Box(P) == LET X == {p[1] : p \in P}  Y == {p[2] : p \in P} IN <<MinOf(X), MinOf(Y), MaxOf(X), MaxOf(Y)>>
ShapeHead(s, n) == s.code = 9994 /\ s.version = 1000 /\ s.type = 5 /\ s.box # <<>>
\* a main file of n records of one ring of five points, the last as the first
Shp(s) == LET n == Len(s.recs) IN
  /\ ShapeHead(s, n) /\ s.len = 50 + 68 * n /\ s.bytes = 2 * s.len
  /\ \A i \in 1..n : LET r == s.recs[i] IN
       /\ r.num = i /\ r.len = 64 /\ r.type = 5 /\ r.parts = 1 /\ r.points = 5 /\ r.part0 = 0
       /\ Len(r.pts) = 5 /\ r.pts[5] = r.pts[1]
       /\ r.box = Box({r.pts[k] : k \in 1..4})
  /\ n > 0 => s.box = Box({s.recs[i].pts[k] : i \in 1..n, k \in 1..4})
\* its index
Shx(s, n) == /\ ShapeHead(s, n) /\ s.len = 50 + 4 * n /\ s.bytes = 2 * s.len
             /\ s.recs = [i \in 1..n |-> <<50 + 68 * (i - 1), 64>>]
Dbf(t, n) == /\ t.n = n /\ t.hlen = 97 /\ t.rlen = 7 /\ Len(t.rows) = n
             /\ t.fields = <<<<"code", "N", 3, 0>>, <<"level", "N", 3, 0>>>>
\* a row of the csv file shows the points of the record, to a thousandth of a degree
SamePoints(c, r) == Len(c) = 5 /\ \A k \in 1..5 : Near(1000 * c[k][1], r[k][1], 501) /\ Near(1000 * c[k][2], r[k][2], 501)
==============================================================================
