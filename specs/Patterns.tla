------------------------------ MODULE Patterns ------------------------------
(* Lists of extended regular expressions, as the accept options of nbspd take *)
(* them: separated by commas, "!" negates, the last one that matches decides. *)
EXTENDS Integers, Sequences, FiniteSets

(* Expressions: [t |-> "chr", c], "any", "bol", "eol", [t |-> "set", neg, s]   *)
(* with s a sequence of <<lo, hi>>, "cat" and "alt" with a sequence es, "star",*)
(* "plus", "opt" with e, "grp" with e.                                         *)

\* The positions at which a match of e that begins after position i of s ends.
RECURSIVE Ends(_, _, _), Closure(_, _, _), CatEnds(_, _, _, _)
CatEnds(es, k, s, I) ==
  IF k > Len(es) THEN I
  ELSE CatEnds(es, k + 1, s, UNION {Ends(es[k], s, i) : i \in I})
Closure(e, s, I) ==
  LET J == I \cup UNION {Ends(e, s, i) : i \in I} IN
  IF J = I THEN I ELSE Closure(e, s, J)
Ends(e, s, i) ==
  CASE e.t = "chr"  -> IF i < Len(s) /\ s[i+1] = e.c THEN {i + 1} ELSE {}
    [] e.t = "any"  -> IF i < Len(s) THEN {i + 1} ELSE {}
    [] e.t = "set"  -> IF i < Len(s) /\ ((\E k \in 1..Len(e.s) : s[i+1] >= e.s[k][1] /\ s[i+1] <= e.s[k][2]) /= e.neg)
                       THEN {i + 1} ELSE {}
    [] e.t = "bol"  -> IF i = 0 THEN {i} ELSE {}
    [] e.t = "eol"  -> IF i = Len(s) THEN {i} ELSE {}
    [] e.t = "cat"  -> CatEnds(e.es, 1, s, {i})
    [] e.t = "alt"  -> UNION {Ends(e.es[k], s, i) : k \in 1..Len(e.es)}
    [] e.t = "grp"  -> Ends(e.e, s, i)
    [] e.t = "star" -> Closure(e.e, s, {i})
    [] e.t = "plus" -> Closure(e.e, s, Ends(e.e, s, i))
    [] e.t = "opt"  -> {i} \cup Ends(e.e, s, i)
Matches(e, s) == \E i \in 0..Len(s) : Ends(e, s, i) /= {}

\* The text of an expression.
Special == {36, 40, 41, 42, 43, 46, 63, 91, 92, 94, 123, 124}
RECURSIVE Text(_), CatText(_, _), AltText(_, _), SetText(_, _)
CatText(es, k) == IF k > Len(es) THEN <<>> ELSE Text(es[k]) \o CatText(es, k + 1)
AltText(es, k) == IF k > Len(es) THEN <<>> ELSE (IF k > 1 THEN <<124>> ELSE <<>>) \o Text(es[k]) \o AltText(es, k + 1)
SetText(s, k) == IF k > Len(s) THEN <<>>
                 ELSE (IF s[k][1] = s[k][2] THEN <<s[k][1]>> ELSE <<s[k][1], 45, s[k][2]>>) \o SetText(s, k + 1)
Text(e) ==
  CASE e.t = "chr"  -> IF e.c \in Special THEN <<92, e.c>> ELSE <<e.c>>
    [] e.t = "any"  -> <<46>>
    [] e.t = "set"  -> <<91>> \o (IF e.neg THEN <<94>> ELSE <<>>) \o SetText(e.s, 1) \o <<93>>
    [] e.t = "bol"  -> <<94>>
    [] e.t = "eol"  -> <<36>>
    [] e.t = "cat"  -> CatText(e.es, 1)
    [] e.t = "alt"  -> AltText(e.es, 1)
    [] e.t = "grp"  -> <<40>> \o Text(e.e) \o <<41>>
    [] e.t = "star" -> Text(e.e) \o <<42>>
    [] e.t = "plus" -> Text(e.e) \o <<43>>
    [] e.t = "opt"  -> Text(e.e) \o <<63>>
    [] e.t = "raw"  -> e.s                   \* not an expression

\* A list of patterns p = [neg, e].
Comma == 44
RECURSIVE Split(_, _, _)
Split(s, k, cur) ==                          \* empty fields are ignored
  IF k > Len(s) THEN IF cur = <<>> THEN <<>> ELSE <<cur>>
  ELSE IF s[k] = Comma THEN (IF cur = <<>> THEN <<>> ELSE <<cur>>) \o Split(s, k + 1, <<>>)
  ELSE Split(s, k + 1, Append(cur, s[k]))
IsListText(s, L) == Split(s, 1, <<>>) = [k \in 1..Len(L) |-> (IF L[k].neg THEN <<33>> ELSE <<>>) \o Text(L[k].e)]

WellFormed(L) == \A k \in 1..Len(L) : L[k].e.t /= "raw"
\* The decision: an option is unset, or has a list.
AcceptsList(L, s) ==
  LET M == {k \in 1..Len(L) : Matches(L[k].e, s)} IN
  M /= {} /\ ~L[CHOOSE k \in M : \A j \in M : j <= k].neg
Accepts(opt, s) == opt.unset \/ AcceptsList(opt.list, s)
=============================================================================
