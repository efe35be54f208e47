-------------------------------- MODULE Config --------------------------------
(* The configuration: a table of options with defaults; the default file and  *)
(* then the one given in the command line, each a sequence of commands; the   *)
(* values in effect, and what comes of them: printed, refused, or started.    *)
EXTENDS Integers, Sequences
CONSTANT Opts        \* name -> [type, default] and min, max ("int") or nonempty ("str")
VARIABLES val, state
cvars == <<val, state>>
Defaults == [n \in DOMAIN Opts |-> Opts[n].default]
Null == "NULL"       \* a string with no value
Start == val = Defaults /\ state = "reading"
Is(n, type) == n \in DOMAIN Opts /\ Opts[n].type = type
Put(n, v) == val' = [val EXCEPT ![n] = v] /\ UNCHANGED state
\* a command: what it does when it is evaluated
Eval(c) == CASE c.op = "set"    -> Put(c.n, c.v)
             [] c.op = "incr"   -> Put(c.n, val[c.n] + c.v)
             [] c.op = "copy"   -> Put(c.n, val[c.m] + c.v)
             [] c.op = "append" -> Put(c.n, val[c.n] \o c.v)
             [] c.op = "scopy"  -> Put(c.n, val[c.m])
             [] c.op = "bad"    -> state' = "failed" /\ UNCHANGED val       \* not an integer; an error
             [] c.op = "return" -> state' = "skipping" /\ UNCHANGED val
             [] c.op = "none"   -> UNCHANGED cvars                          \* errors caught, other variables
Cmd(c) == IF state = "reading" THEN Eval(c) ELSE UNCHANGED cvars
\* the next file, if the first one had no errors
File(exists) == /\ state' = (IF state = "failed" \/ ~exists THEN "failed" ELSE "reading")
                /\ UNCHANGED val
ValidOpt(n) == IF Opts[n].type = "int" THEN val[n] >= Opts[n].min /\ val[n] <= Opts[n].max
               ELSE Opts[n].nonempty => val[n] /= Null /\ val[n] /= ""
Valid == \A n \in DOMAIN Opts : ValidOpt(n)
Outcome(print) == IF state = "failed" THEN "refused"
                  ELSE IF print THEN "printed"
                  ELSE IF Valid THEN "started" ELSE "refused"
=============================================================================
