----------------------------- MODULE MCPatterns -----------------------------
(* The decision explored over all small lists: a machine appends patterns to  *)
(* the list of an option and asks.                                            *)
EXTENDS Patterns, TLC
CONSTANTS MaxLen, MaxList
A == 97  B == 98
Chr(c) == [t |-> "chr", c |-> c]
Exprs == { Chr(A), [t |-> "any"], [t |-> "star", e |-> Chr(A)],
           [t |-> "cat", es |-> <<[t |-> "bol"], Chr(A)>>], [t |-> "cat", es |-> <<Chr(B), [t |-> "eol"]>>],
           [t |-> "cat", es |-> <<Chr(A), [t |-> "plus", e |-> Chr(B)]>>],
           [t |-> "cat", es |-> <<[t |-> "bol"], [t |-> "eol"]>>],
           [t |-> "grp", e |-> [t |-> "alt", es |-> <<Chr(B), [t |-> "cat", es |-> <<Chr(A), Chr(A)>>]>>]],
           [t |-> "set", neg |-> TRUE, s |-> <<<<A, A>>>>] }
Names == UNION {[1..n -> {A, B}] : n \in 0..MaxLen}
VARIABLES list, name
Init == list = <<>> /\ name \in Names
Add == \E e \in Exprs, n \in BOOLEAN : Len(list) < MaxList /\ list' = Append(list, [neg |-> n, e |-> e]) /\ UNCHANGED name
Next == Add
Spec == Init /\ [][Next]_<<list, name>>
Opt == [unset |-> FALSE, list |-> list]
UnsetAccepts == Accepts([unset |-> TRUE, list |-> list], name)
EmptyRejects == list = <<>> => ~Accepts(Opt, name)
NoMatchRejects == (\A k \in 1..Len(list) : ~Matches(list[k].e, name)) => ~Accepts(Opt, name)
MatchAll == Matches([t |-> "star", e |-> [t |-> "any"]], name)
RoundTrip == IsListText(<<44>> \o [i \in {} |-> 0], <<>>)
\* a pattern appended decides if it matches and changes nothing otherwise
LastDecides == [][ LET p == list'[Len(list')] IN
                   AcceptsList(list', name) = IF Matches(p.e, name) THEN ~p.neg ELSE AcceptsList(list, name) ]_<<list, name>>
=============================================================================
