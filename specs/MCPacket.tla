------------------------------ MODULE MCPacket ------------------------------
(* Every packet over small alphabets, with any one byte replaced, truncated,  *)
(* or followed by another packet.                                             *)
EXTENDS Packet, TLC
CONSTANTS Chars, MaxName, PathField, Bytes
Strs(n) == UNION {[1..k -> Chars] : k \in 0..n}
Fields == [seq : {<<0, 1>>, <<65535, 256>>}, type : {0, 255}, cat : {7}, code : {128}, ch : {0, 3}, fname : Strs(MaxName), fpath : Strs(PathField - 1)]
VARIABLES f, pos, val, cut
vars == <<f, pos, val, cut>>
P == Pack(f, PathField)
N == Hdr + Codes + NameField + PathField
\* one byte at pos replaced by val (pos = 0: none), and only cut bytes received
B == SubSeq([i \in 1..N |-> IF i = pos THEN val ELSE P[i]], 1, cut)
Init == f \in Fields /\ pos = 0 /\ val = 0 /\ cut = N
Next == /\ pos = 0 /\ cut = N /\ UNCHANGED f
        /\ \/ pos' \in 1..N /\ val' \in Bytes /\ cut' \in {N, N - 1}
           \/ cut' \in 0..N-1 /\ UNCHANGED <<pos, val>>
Spec == Init /\ [][Next]_vars
RoundTrip == pos = 0 /\ cut = N => Unpack(B) = Accepted(f)
\* A damaged packet is refused, or the damage did not touch anything (the size
\* excludes some of the zeros at the end).
Damaged == LET u == Unpack(B) IN ~u.ok \/ u = Accepted(f)
Truncated == cut < N /\ pos = 0 => ~Unpack(B).ok
Streams == pos = 0 /\ cut = N => Receive(P \o P \o SubSeq(P, 1, N - 1), N) = <<Accepted(f), Accepted(f)>>
                               /\ Receive(P, N - 1) = <<>>
=============================================================================
