------------------------------ MODULE SbnWire ------------------------------
(***************************************************************************)
(* The SBN wire format as nbsp must understand it: decoding of the three   *)
(* binary headers of a frame (frame level, product definition, product     *)
(* specific), and of the text header (CCB, WMO and AWIPS lines) that names *)
(* a product.  Everything here is a constant level operator on sequences   *)
(* of bytes.  32 bit words are kept as pairs <<hi16, lo16>> because TLC    *)
(* integers are 32 bit signed.                                             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC

FLH == 16      \* frame level header
PDH == 16      \* product definition header
PSH == 36      \* product specific header
CCBSIZE == 24
WMOMIN == 21   \* the smallest control header that can hold a WMO line

B16(b, i) == b[i+1] * 256 + b[i+2]                 \* i is a 0-based offset
B32(b, i) == <<B16(b, i), B16(b, i+2)>>
Byte(b, i) == b[i+1]
Bit(n, v) == (n \div v) % 2 = 1

RECURSIVE SumTo(_, _)
SumTo(b, n) == IF n = 0 THEN 0 ELSE b[n] + SumTo(b, n-1)

Sub(s, from0, len) == SubSeq(s, from0 + 1, from0 + len)

IsAlpha(c) == (c >= 65 /\ c <= 90) \/ (c >= 97 /\ c <= 122)
IsDigit(c) == c >= 48 /\ c <= 57
IsAlnum(c) == IsAlpha(c) \/ IsDigit(c)
IsSpace(c) == c = 32 \/ (c >= 9 /\ c <= 13)
Lower(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c
LowerSeq(s) == [i \in 1..Len(s) |-> Lower(s[i])]

(***************************************************************************)
(* Decimal digits (bytes) of a 32 bit word.                                *)
(***************************************************************************)
Div10(w) == LET q1 == w[1] \div 10
                t  == (w[1] % 10) * 65536 + w[2]
            IN <<<<q1, t \div 10>>, t % 10>>
RECURSIVE Decimal(_)
Decimal(w) == LET d == Div10(w)
              IN IF d[1] = <<0, 0>> THEN <<48 + d[2]>>
                 ELSE Decimal(d[1]) \o <<48 + d[2]>>

Word0 == <<0, 0>>
WordLess(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
WordInc(a) == IF a[2] < 65535 THEN <<a[1], a[2] + 1>>
              ELSE IF a[1] < 65535 THEN <<a[1] + 1, 0>> ELSE Word0

(***************************************************************************)
(* The text header.  s is the text starting at the WMO line (the CCB has   *)
(* been skipped).  scanf-like tokens: skip white space, then take at most  *)
(* max non-blank bytes.                                                    *)
(***************************************************************************)
RECURSIVE SkipWs(_, _)
SkipWs(s, i) == IF i <= Len(s) /\ IsSpace(s[i]) THEN SkipWs(s, i+1) ELSE i
RECURSIVE TokEnd(_, _, _)
TokEnd(s, i, n) == IF n = 0 \/ i > Len(s) \/ (i <= Len(s) /\ (IsSpace(s[i]) \/ s[i] = 0))
                   THEN i ELSE TokEnd(s, i+1, n-1)
Tok(s, i, max) == LET a == SkipWs(s, i)
                      e == TokEnd(s, a, max)
                  IN <<SubSeq(s, a, e-1), e>>

RECURSIVE FirstNl(_, _)
FirstNl(s, i) == IF i > Len(s) \/ (i <= Len(s) /\ s[i] = 10) THEN i ELSE FirstNl(s, i+1)

RECURSIVE Blanks(_, _)
Blanks(s, i) == IF i > Len(s) \/ (i <= Len(s) /\ (s[i] = 10 \/ s[i] = 0)) THEN 0
                ELSE (IF s[i] = 32 THEN 1 ELSE 0) + Blanks(s, i+1)

RECURSIVE AlnumEnd(_, _, _)
AlnumEnd(s, i, n) == IF n = 0 \/ i > Len(s) \/ (i <= Len(s) /\ ~IsAlnum(s[i]))
                     THEN i ELSE AlnumEnd(s, i+1, n-1)

AllOf(s, P(_)) == \A i \in 1..Len(s) : P(s[i])

BadName == [ok |-> FALSE]

ParseName(s0) ==
  LET s  == IF Len(s0) > 127 THEN SubSeq(s0, 1, 127) ELSE s0
      nb == Blanks(s, 1)
      t1 == Tok(s, 1, 6)
      t2 == Tok(s, t1[2], 4)
      t3 == Tok(s, t2[2], 6)
      t4 == IF nb = 3 THEN Tok(s, t3[2], 6) ELSE <<<<>>, t3[2]>>
      valid == /\ nb \in {2, 3}
               /\ Len(t1[1]) = 6 /\ AllOf(t1[1], IsAlnum)
               /\ Len(t2[1]) = 4 /\ AllOf(t2[1], IsAlpha)
               /\ Len(t3[1]) = 6 /\ AllOf(t3[1], IsDigit)
               /\ (nb = 3) => (Len(t4[1]) >= 1 /\ AllOf(t4[1], IsAlnum))
      nl == FirstNl(s0, 1)                       \* position of the newline
      n  == Len(s0) - nl                         \* bytes after it
      l2 == IF n >= 1 THEN SubSeq(s0, nl + 1, Len(s0)) ELSE <<>>
      isawips == n >= 9 /\ IsAlpha(l2[1]) /\ l2[9] = 10
      awips == IF n >= 1 /\ isawips THEN Tok(SubSeq(l2, 1, 8), 1, 6)[1] ELSE <<>>
      notawips == IF n < 1 \/ isawips THEN <<>>
                  ELSE IF IsAlpha(l2[1]) THEN SubSeq(l2, 1, AlnumEnd(l2, 1, 6) - 1)
                  ELSE t4[1]
      fname == t2[1] \o <<95>> \o t1[1]
               \o (IF Len(awips) > 0 THEN <<45>> \o awips
                   ELSE IF Len(notawips) > 0 THEN <<43>> \o notawips ELSE <<>>)
  IN IF ~valid THEN BadName
     ELSE [ok |-> TRUE, fname |-> LowerSeq(fname), time |-> t3[1],
           station |-> LowerSeq(t2[1])]

BaseName(name, seq) == name.fname \o <<46>> \o name.time \o <<95>> \o Decimal(seq)

(***************************************************************************)
(* The binary headers.  unz is what decompressing the data of the frame    *)
(* gives (<<>> if that fails); it is only used for a compressed first      *)
(* block sent without a control header.                                    *)
(***************************************************************************)
Bad == [k |-> "bad"]

Decode(b, unz) ==
  LET size == Len(b) IN
  IF size < FLH THEN [k |-> "bad"]
  ELSE IF B16(b, 14) # SumTo(b, 14) THEN [k |-> "bad"]
  ELSE IF Byte(b, 4) # 3 THEN [k |-> "nondata", sbnseq |-> B32(b, 8)]
  ELSE IF size < FLH + PDH THEN [k |-> "bad"]
  ELSE
  LET tt   == Byte(b, 17)
      blk  == B16(b, 20)
      dbo  == B16(b, 22)
      dbs  == B16(b, 24)
      off  == FLH + PDH + (IF blk = 0 THEN PSH ELSE 0)
  IN
  IF size < off \/ size # off + dbs THEN [k |-> "bad"]
  ELSE IF dbo # 0 /\ (dbo < WMOMIN \/ dbo > dbs) THEN [k |-> "bad"]
  ELSE
  LET ctrl == Sub(b, off, dbo)
      data == Sub(b, off + dbo, dbs - dbo)
      z    == Bit(tt, 16)
      text == IF dbo # 0 THEN ctrl ELSE IF z THEN unz ELSE data
      hasccb == Len(text) = 0 \/ ~IsAlpha(text[1])
  IN
  IF blk = 0 /\ dbo = 0 /\ z /\ unz = <<>> THEN [k |-> "unzerr", sbnseq |-> B32(b, 8)]
  ELSE IF blk = 0 /\ hasccb /\ Len(text) < CCBSIZE THEN [k |-> "bad"]
  ELSE
  LET wmo == IF hasccb THEN SubSeq(text, CCBSIZE + 1, Len(text)) ELSE text
      q   == FLH + PDH
      rtx == blk = 0 /\ Bit(Byte(b, q + 5), 16)
  IN [k |-> "data", sbnseq |-> B32(b, 8), ds |-> Byte(b, 5),
      err |-> Bit(tt, 8) \/ Bit(tt, 32), start |-> Bit(tt, 1), prog |-> Bit(tt, 2),
      end |-> Bit(tt, 4), z |-> z, blk |-> blk, seq |-> B32(b, 28),
      ctrl |-> ctrl, data |-> data,
      ccb |-> (blk = 0 /\ hasccb),
      rtx |-> rtx,
      orig |-> IF rtx THEN B32(b, q + 20) ELSE Word0,
      type |-> IF blk = 0 THEN Byte(b, q + 10) ELSE 0,
      cat  |-> IF blk = 0 THEN Byte(b, q + 11) ELSE 0,
      code |-> IF blk = 0 THEN B16(b, q + 12) ELSE 0,
      nf   |-> IF blk = 0 THEN B16(b, q + 14) ELSE 0,
      name |-> IF blk # 0 THEN BadName
               ELSE IF dbo # 0 /\ Len(wmo) < WMOMIN THEN BadName
               ELSE ParseName(wmo)]
=============================================================================
