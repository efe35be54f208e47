----------------------------- MODULE TraceWire ------------------------------
(* Validates what the real code packs, unpacks, sends and receives.           *)
EXTENDS Packet, Json, TLC
CONSTANTS TraceFile, IndexFile, FreeAt
E == INSTANCE Emwin
Events == ndJsonDeserialize(TraceFile)
Index  == ndJsonDeserialize(IndexFile)
VARIABLES tr, l
vars == <<tr, l>>
Ev == Events[Index[tr].a + l - 1]
More == l <= Index[tr].n
Free == l = FreeAt
NotExplained == FreeAt = 0 \/ l <= FreeAt
Adv == l' = l + 1 /\ UNCHANGED tr
Init == tr \in 1..Len(Index) /\ l = 1
\* the result of a receiver: [ok] or all the fields
Same(r, u) == r.ok = u.ok /\ (u.ok => r = u)
\* packed by the code: any receiver finds the fields
Packed == /\ More /\ Ev.e = "p"
          /\ Free \/ (Unpack(Ev.bytes) = Accepted(Ev.f) /\ Same(Ev.r, Accepted(Ev.f)))
          /\ Adv
\* arbitrary bytes given to a receiver
Given == /\ More /\ Ev.e = "u"
         /\ Free \/ Same(Ev.r, Unpack(Ev.bytes))
         /\ Adv
\* a stream, and what the receiver took from it before it closed the connection
Stream == /\ More /\ Ev.e = "r"
          /\ Free \/ (LET x == Receive(Ev.bytes, Ev.max) IN Len(Ev.got) = Len(x) /\ \A i \in 1..Len(x) : Same(Ev.got[i], x[i]))
          /\ Adv
\* a product sent to an EMWIN client
Emwin == /\ More /\ Ev.e = "em"
         /\ Free \/ (E!IsStream(Ev.s, Ev.name, Ev.file) /\ E!Recovers(Ev.s, Ev.file))
         /\ Adv
\* one packet of a large product: decoded header, sum of the data, everything else right
EmwinBig == /\ More /\ Ev.e = "eb"
            /\ Free \/ (Ev.rest /\ E!IsHeader(Ev.h, Ev.name, Ev.n, E!Parts(Ev.size), Ev.sum))
            /\ Adv
EmwinEnd == /\ More /\ Ev.e = "ee" /\ (Free \/ Ev.sent = E!PSIZE * E!Parts(Ev.size)) /\ Adv
Done == ~More /\ UNCHANGED vars
Next == Packed \/ Given \/ Stream \/ Emwin \/ EmwinBig \/ EmwinEnd \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
