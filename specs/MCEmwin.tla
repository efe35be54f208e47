------------------------------ MODULE MCEmwin -------------------------------
(* The sender of Emwin's packets, its receiver, and that nothing else is      *)
(* accepted as the stream of a product.                                       *)
EXTENDS Emwin, TLC
CONSTANT MaxPart
Pow(n) == <<1, 10, 100, 1000, 10000, 100000>>[n]
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Dec(n \div 10), 48 + (n % 10))
Left(s, n) == [i \in 1..n |-> IF i <= Len(s) THEN s[i] ELSE 32]
Date == <<48,49,47,48,50,47,50,48,50,53,32,48,51,58,48,52,58,48,53,32,65,77>>
Header(name, n, t, c) == PF \o NameField(name) \o PN \o Left(Dec(n), 5) \o PT \o Left(Dec(t), 5) \o CS \o Left(Dec(c), 6) \o FD \o Date
                         \o <<32,32,32,32,32,32,32,32,32,32,13,10>>
Packet(name, file, n) == LET d == PartData(file, n) q == Zeros(6) \o Header(name, n, Parts(Len(file)), Sum(d)) \o d \o Zeros(6)
                         IN [i \in 1..PSIZE |-> 255 - q[i]]
RECURSIVE Send(_, _, _)
Send(name, file, n) == IF n > Parts(Len(file)) THEN <<>> ELSE Packet(name, file, n) \o Send(name, file, n + 1)
Sizes == UNION {{k * DATA - 1, k * DATA, k * DATA + 1} : k \in 1..MaxPart} \cup {0, 1, 2}
Names == {<<97>>, <<97,98,99,46,116,120,116>>, <<97,97,97,97,97,97,97,97,97,97,97,97,97,97>>}
VARIABLES size, fill, nm
vars == <<size, fill, nm>>
File == [i \in 1..size |-> (fill * i) % 256]
Init == size \in {s \in Sizes : s <= MaxPart * DATA} /\ fill = 0 /\ nm \in Names
Next == fill = 0 /\ fill' \in {1, 255, 128, 7} /\ UNCHANGED <<size, nm>>
Spec == Init /\ [][Next]_vars
NumberOk == \A k \in 1..5 : \A n \in {Pow(k), Pow(k) - 1, Pow(k) + 1} : Number(Left(Dec(n), 6)) = n
RoundTrip == LET s == Send(nm, File, 1) IN IsStream(s, nm, File) /\ Recovers(s, File)
\* one more or one fewer packet, or two exchanged, is not that stream
OneOnly == LET s == Send(nm, File, 1) n == Parts(size) IN
           /\ n > 0 => ~IsStream(SubSeq(s, 1, (n - 1) * PSIZE), nm, File)
           /\ n > 0 => ~IsStream(s \o SubSeq(s, 1, PSIZE), nm, File)
           /\ n > 1 => ~IsStream(SubSeq(s, PSIZE + 1, 2 * PSIZE) \o SubSeq(s, 1, PSIZE) \o SubSeq(s, 2 * PSIZE + 1, Len(s)), nm, File)
=============================================================================
