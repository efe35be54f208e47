------------------------------- MODULE Packet -------------------------------
(* The announcement packets: what the processor, the NBS2 servers and slaves, *)
(* the input fifo and the queue tools exchange.                               *)
(*    id (4) size (4) checksum (4) | seq (4) type cat code channel            *)
(*    | name, terminated, NameField bytes | path, terminated, to the end      *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Functions
CONSTANTS NameField,      \* bytes for the name and its terminator
          Id              \* what identifies these packets

Hdr == 12
Codes == 8
Add(a, b) == a + b
Sum(s) == FoldLeft(Add, 0, s)

Byte == 0..255
Be4(w) == <<w[1] \div 256, w[1] % 256, w[2] \div 256, w[2] % 256>>   \* w: the two halves of 32 bits
Word(s, i) == <<s[i+1] * 256 + s[i+2], s[i+3] * 256 + s[i+4]>>
IntWord(n) == <<n \div 65536, n % 65536>>
Zeros(n) == [i \in 1..n |-> 0]
Pad(s, n) == s \o Zeros(n - Len(s))

\* The string that begins after position i of s, looking at n bytes; <<>> and
\* FALSE if it does not end there.
Ends(s, i, n) == {k \in 1..n : s[i + k] = 0}
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Str(s, i, n) == SubSeq(s, i + 1, i + Least(Ends(s, i, n)) - 1)

\* f = [seq, type, cat, code, ch, fname, fpath]; size: bytes for the path.
Data(f, size) == Be4(f.seq) \o <<f.type, f.cat, f.code, f.ch>> \o Pad(f.fname, NameField) \o Pad(f.fpath, size)
Pack(f, size) == LET d == Data(f, size) IN Be4(IntWord(Id)) \o Be4(IntWord(Len(d))) \o Be4(IntWord(Sum(d))) \o d

\* What a receiver that holds the bytes b makes of them.
Rejected == [ok |-> FALSE]
Unpack(b) ==
  IF Len(b) < Hdr THEN Rejected
  ELSE LET size == Word(b, 4) n == size[1] * 65536 + size[2] IN
  IF Word(b, 0) /= IntWord(Id) \/ size[1] > 32767 THEN Rejected
  ELSE IF n > Len(b) - Hdr \/ n < Codes + NameField + 1 THEN Rejected
  ELSE LET d == SubSeq(b, Hdr + 1, Hdr + n) IN
  IF Word(b, 8) /= IntWord(Sum(d)) THEN Rejected
  ELSE IF Ends(d, Codes, NameField) = {} \/ Ends(d, Codes + NameField, n - Codes - NameField) = {} THEN Rejected
  ELSE [ok |-> TRUE, seq |-> Word(d, 0), type |-> d[5], cat |-> d[6], code |-> d[7], ch |-> d[8],
        fname |-> Str(d, Codes, NameField), fpath |-> Str(d, Codes + NameField, n - Codes - NameField)]

Accepted(f) == [ok |-> TRUE, seq |-> f.seq, type |-> f.type, cat |-> f.cat, code |-> f.code, ch |-> f.ch,
                fname |-> f.fname, fpath |-> f.fpath]

\* What a receiver with room for max bytes takes from a stream: the packets up
\* to the first one that it must not accept (it then closes the connection).
RECURSIVE Receive(_, _)
Receive(s, max) ==
  IF Len(s) < Hdr THEN <<>>
  ELSE LET size == Word(s, 4) n == size[1] * 65536 + size[2] IN
  IF Word(s, 0) /= IntWord(Id) \/ size[1] > 32767 THEN <<>>
  ELSE IF n > max - Hdr \/ Hdr + n > Len(s) THEN <<>>
  ELSE LET u == Unpack(SubSeq(s, 1, Hdr + n)) IN
  IF ~u.ok THEN <<>> ELSE <<u>> \o Receive(SubSeq(s, Hdr + n + 1, Len(s)), max)
=============================================================================
