----------------------------- MODULE TraceRadGis ------------------------------
(* Validates what the real programs made of radar products.                   *)
EXTENDS Integers, Sequences, Json, TLC
CONSTANTS TraceFile, IndexFile, FreeAt
Events == ndJsonDeserialize(TraceFile)
Index  == ndJsonDeserialize(IndexFile)
VARIABLES tr, l, p      \* p: the product
vars == <<tr, l, p>>
G == INSTANCE RadGis
Ev == Events[Index[tr].a + l - 1]
More == l <= Index[tr].n
Free == l = FreeAt
NotExplained == FreeAt = 0 \/ l <= FreeAt
Adv == l' = l + 1 /\ UNCHANGED tr
Init == tr \in 1..Len(Index) /\ l = 1 /\ p = <<>>
Put == More /\ Ev.e = "put" /\ p' = Ev /\ Adv
\* the numbers nbspradinfo prints; a time is a day and the seconds of it
Printed(h, o) == IF o.t /\ o.l THEN G!Time(h) \o <<h.len>> ELSE IF o.t THEN G!Time(h) ELSE IF o.l THEN <<h.len>>
                 ELSE <<h.lat, h.lon, h.height>> \o G!Time(h) \o <<h.mode, h.code>>
Info == /\ More /\ Ev.e = "info" /\ UNCHANGED p
        /\ LET st == IF Ev.valid THEN G!InfoStatus(p.f, Ev.skip, Ev.q) ELSE 1 IN
           Free \/ (Ev.status = st /\ Ev.out = (IF st = 0 THEN Printed(p.h, Ev) ELSE <<>>))
        /\ Adv
Ok == Ev.valid /\ G!InfoStatus(p.f, Ev.skip, FALSE) = 0 /\ G!Sound(p.f, p.h, p.b)
HasGeo == Ev.shp.there
Given(e) == \E i \in 1..Len(Ev.names) : Ev.names[i][1] = e
FileFor(e) == IF Given(e) THEN LET i == CHOOSE i \in 1..Len(Ev.names) : Ev.names[i][1] = e IN [ext |-> e, s |-> Ev.names[i][2], t |-> <<>>]
              ELSE [ext |-> e, s |-> "", t |-> G!Name(p.awips, p.h)]
Wanted == {FileFor(Ev.outs[i]) : i \in 1..Len(Ev.outs)}
InfoFile(i) == /\ i.time = G!Time(p.h) /\ i.mode = p.h.mode /\ i.prod = p.h.code /\ i.packet = p.b.packet
               /\ i.lon = p.h.lon /\ i.lat = p.h.lat /\ i.height = p.h.height
Gis == /\ More /\ Ev.e = "gis" /\ UNCHANGED p
       /\ Free \/ Ev.status = (IF Ok THEN 0 ELSE 1)
       /\ Free \/ {Ev.files[i] : i \in 1..Len(Ev.files)} = (IF Ok THEN Wanted ELSE {})
       /\ Free \/ ~Ok \/
          LET n == Len(Ev.ps) IN
          /\ Ev.known => G!Polygons(Ev.ps, p.h, p.b, Ev)
          /\ Ev.shp.there => G!Shp(Ev.shp) /\ Len(Ev.shp.recs) = n
          /\ Ev.shx.there => G!Shx(Ev.shx, n) /\ (Ev.shp.there => Ev.shx.box = Ev.shp.box)
          /\ Ev.dbf.there => G!Dbf(Ev.dbf, n) /\ \A i \in 1..n : Ev.dbf.rows[i] = <<" ">> \o <<Ev.ps[i].code>>
          /\ Ev.csv.there => Len(Ev.csv.rows) = n /\ \A i \in 1..n : Ev.csv.rows[i].code = Ev.ps[i].code
          /\ (Ev.csv.there /\ Ev.shp.there) => \A i \in 1..n : G!SamePoints(Ev.csv.rows[i].pts, Ev.shp.recs[i].pts)
          /\ Ev.info.there => InfoFile(Ev.info) /\ ((Ev.shp.there /\ n > 0) => Ev.info.box = Ev.shp.box)
       /\ Adv
End == ~More /\ UNCHANGED vars
Next == Put \/ Info \/ Gis \/ End
Spec == Init /\ [][Next]_vars
==============================================================================
