------------------------------- MODULE MCRadGis -------------------------------
(* Every radial of up to Runs runs of every product, and every day.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Runs, Days
VARIABLES kind, runs, scale, delta, day
vars == <<kind, runs, scale, delta, day>>
G == INSTANCE RadGis
Kinds == {<<19, G!RLE, 2>>, <<20, G!RLE, 1>>, <<27, G!RLE, 2>>, <<56, G!RLE, 1>>, <<78, G!RLE, 2>>, <<80, G!RLE, 0>>,
          <<94, G!Digital, 1>>, <<94, G!Digital, 2>>, <<99, G!Digital, 2>>}
Codes(k) == IF k[2] = G!RLE THEN {0, 1, 7, 15} ELSE {0, 1, 2, 3, 66, 255}
Init == /\ runs = <<>> /\ \/ kind \in Kinds /\ scale \in {1000, 2000, 999, 250} /\ delta \in {0, 5, 10, 20} /\ day = 0
                          \/ kind = <<94, G!Digital, 1>> /\ scale = 1000 /\ delta = 0 /\ day \in 0..Days
Next == day = 0 /\ Len(runs) < Runs /\ \E n \in {0, 1, 2, 15} : \E c \in Codes(kind) : runs' = Append(runs, <<n, c>>) /\ UNCHANGED <<kind, scale, delta, day>>
Spec == Init /\ [][Next]_vars
Rad == [start |-> 3595, delta |-> delta, len |-> 0, runs |-> runs]
B == [packet |-> kind[2], scale |-> scale, count |-> 1, radials |-> <<Rad>>]
H == [code |-> kind[1], mode |-> kind[3]]
O == [min |-> 0, max |-> 0]
Every == [min |-> -1000, max |-> 1000]
D(o) == G!Drawn(H, B, o, 1)
RECURSIVE Bins(_)
Bins(s) == IF s = <<>> THEN 0 ELSE Head(s)[1] + Bins(Tail(s))
\* every metre of a run with data is in a cell with its code
Run(i) == <<Bins(SubSeq(runs, 1, i - 1)) * scale, Bins(SubSeq(runs, 1, i)) * scale>>
Shown(i) == runs[i][1] > 0 /\ (kind[2] = G!RLE \/ runs[i][2] >= 2)
\* (in whole km, and in digital data, in exactly one)
In(E, m) == {j \in 1..Len(E) : E[j][3] <= m /\ m < E[j][4]}
Cover == delta > 0 => LET E == D(Every) IN \A i \in 1..Len(runs) : runs[i][1] > 0 =>
           \A m \in {Run(i)[1], Run(i)[1] + 249, Run(i)[2] - 1} :
             LET S == In(E, m) IN
             /\ Shown(i) => \E j \in S : E[j][1] = runs[i][2]
             /\ (scale % 1000 = 0 \/ kind[2] = G!Digital) => Cardinality(S) = (IF Shown(i) THEN 1 ELSE 0)
\* the filter takes cells away, no others, and changes none
Wanted(c) == c[2] >= G!Range(kind[1])[1] /\ c[2] <= G!Range(kind[1])[2]
Filter == D(O) = SelectSeq(D(Every), Wanted)
\* a higher code is no lower level
Monotone == \A a \in Codes(kind) : \A b \in Codes(kind) : a <= b => G!Level(kind[1], kind[2], kind[3], a) <= G!Level(kind[1], kind[2], kind[3], b)
\* no piece is wider than about a km, and the pieces end where the cell does
Narrow == LET E == D(O) IN \A r \in {E[i][4] : i \in 1..Len(E)} : \A n \in G!Pieces(delta, r) :
            \A k \in 1..n : LET w == G!Turn(Rad, n, k, r) - G!Turn(Rad, n, k - 1, r) IN w * r <= 58000000 /\ w >= -10
\* the days follow one another
Calendar == LET c == G!Civil(day)  d == G!Civil(day + 1) IN
              \/ d = <<c[1], c[2], c[3] + 1>>
              \/ d = <<c[1], c[2] + 1, 1>> /\ c[3] = G!MonthLen(c[1], c[2])
              \/ d = <<c[1] + 1, 1, 1>> /\ c[2] = 12 /\ c[3] = 31
Epoch == G!Civil(0) = <<1970, 1, 1>> /\ G!Civil(15000) = <<2011, 1, 26>>
==============================================================================
