------------------------------- MODULE MCConfig -------------------------------
(* All pairs of files with up to MaxCmds commands each, over a small table.   *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT MaxCmds
VARIABLES val, state, file, n, last, broken
Opts == [a |-> [type |-> "int", default |-> 1, min |-> 0, max |-> 2],
         b |-> [type |-> "int", default |-> 5, min |-> -1, max |-> 100],
         s |-> [type |-> "str", default |-> "x", nonempty |-> TRUE],
         t |-> [type |-> "str", default |-> "NULL", nonempty |-> FALSE]]
C == INSTANCE Config
vars == <<val, state, file, n, last, broken>>
Cmds == {[op |-> "set", n |-> o, v |-> v] : o \in {"a", "b"}, v \in {-1, 2, 3}}
        \cup {[op |-> "set", n |-> o, v |-> v] : o \in {"s", "t"}, v \in {"", "y"}}
        \cup {[op |-> "incr", n |-> "a", v |-> 1], [op |-> "copy", n |-> "b", m |-> "a", v |-> 0], [op |-> "append", n |-> "s", v |-> "z"],
              [op |-> "bad"], [op |-> "return"], [op |-> "none"]}
Init == C!Start /\ file = "default" /\ n = 0 /\ last = <<>> /\ broken = FALSE
Next == \/ /\ n < MaxCmds /\ file /= "end" /\ n' = n + 1 /\ UNCHANGED file
           /\ \E c \in Cmds :
                /\ C!Cmd(c)
                /\ last' = (IF state = "reading" /\ c.op = "set" THEN Append(last, <<c.n, c.v>>) ELSE last)
                /\ broken' = (broken \/ (state = "reading" /\ c.op = "bad"))
        \/ /\ file = "default" /\ file' = "user" /\ n' = 0 /\ UNCHANGED last
           /\ \E ex \in BOOLEAN : C!File(ex) /\ broken' = (broken \/ ~ex)
        \/ file = "user" /\ file' = "end" /\ n' = 0 /\ UNCHANGED <<val, state, last, broken>>
Spec == Init /\ [][Next]_vars
TypeOK == \A o \in DOMAIN Opts : Opts[o].type = "int" => val[o] \in -10..20
\* an error anywhere before is an error of the whole
Refused == broken => C!Outcome(TRUE) = "refused" /\ C!Outcome(FALSE) = "refused"
\* t is only ever set: the last set is in effect, whatever file it is in
LastWins == val["t"] = (LET i == {k \in 1..Len(last) : last[k][1] = "t"} IN IF i = {} THEN "NULL" ELSE last[CHOOSE k \in i : \A j \in i : j <= k][2])
\* what is started has values in the valid ranges
Started == C!Outcome(FALSE) = "started" => val["a"] \in 0..2 /\ val["b"] >= -1 /\ val["s"] \notin {"", "NULL"}
\* printing shows values that would be refused
Printing == C!Outcome(TRUE) = "refused" <=> broken
=============================================================================
