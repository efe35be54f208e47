----------------------------- MODULE MCFileTools -----------------------------
(* Every file of up to Runs runs, and what becomes of it.                     *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Runs
VARIABLES d, lf
F == INSTANCE FileTools WITH CCB <- 2, Page <- 4, BigPage <- 6, ZPage <- 3, Piece <- 2
Bytes == {1, 10, 65}
Init == d = <<>> /\ lf = 0
Next == Len(d) < Runs /\ (\E b \in Bytes : \E n \in 1..3 : d' = F!Join(d, <<<<b, n>>>>) /\ Len(d') = Len(d) + 1) /\ UNCHANGED lf
Spec == Init /\ [][Next]_<<d, lf>>
N == F!Size(d)
RawD == F!Raw(d)
Opt == [n : BOOLEAN, c : {0, 1, 3}, g : BOOLEAN, seq : {<<0, 7>>}]
FOpt == [n : BOOLEAN, c : {0, 1, 3}, t : BOOLEAN, w : BOOLEAN, p : {0, 4}, z : {-1, 0, 9}, awips : BOOLEAN, seq : {<<1, 3>>}]
Suffix(e) == \E k \in 0..N : F!Drop(d, k) = e
\* nothing is lost or invented
RoundTrip == \A l \in {1, 6, 7, 9} : LET z == F!Zip(l, RawD).out IN
               F!Unzip(0, 0, z) = (IF F!ZByte(l) = F!ZMark THEN F!Done(RawD) ELSE F!Fail)
Piped == \A o \in Opt : LET r == F!Pipe(o, RawD)  cut == IF o.n THEN 0 ELSE o.c IN
           /\ r.ok = (N > cut)
           /\ (r.ok /\ ~o.g) => r.out = F!Raw(F!Drop(d, cut))
           /\ (r.ok /\ o.g) => F!Size(F!Data(r.out)) = N - cut + 15
\* in two steps as in one
Twice == \A a \in {0, 1} : \A b \in {0, 1, 3} :
           LET P(c, f) == F!Pipe([n |-> FALSE, c |-> c, g |-> FALSE, seq |-> <<0, 0>>], f)
               one == P(a, RawD) two == P(b, one.out) IN
           one.ok => two = P(a + b, RawD)
Filed == \A o \in FOpt : LET r == F!File(o, RawD) IN
           /\ (~r.ok) => r.out = <<>>
           /\ (r.ok /\ o.z <= 0 /\ (o.t \/ o.w)) => Suffix(F!Data(r.out)) /\ (o.w => F!Size(F!Data(r.out)) > 0)
           /\ (r.ok /\ o.w) => F!File([o EXCEPT !.w = FALSE, !.t = FALSE], RawD).ok
\* what nbspfile compressed is what nbspunz finds
Archived == \A o \in FOpt : o.z = 9 => LET r == F!File(o, RawD) IN
           r.ok => F!Unzip(0, 0, r.out) = F!Done(IF o.t \/ o.w THEN RawD ELSE F!Cat(RawD, F!Raw(F!Trailer)))
Skipped == \A s \in 1..3 : LET z == F!Zip(9, RawD).out  r == F!Unzip(s, 0, z) IN
           r = (IF s < (IF N < 2 THEN N ELSE 2) THEN F!Done(F!Raw(F!Drop(d, s))) ELSE F!Fail)
\* the first frames are the first bytes
Limited == \A k \in 1..2 : LET f == F!Frames(d, 3, 218) IN
           d # <<>> => F!Unzip(0, k, f) = F!Done(F!Raw(F!Take(d, 3 * k)))
=============================================================================
