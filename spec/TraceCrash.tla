------------------------------ MODULE TraceCrash ------------------------------
(* Scenarios that could not be recorded because the library raised in a call  *)
(* that must succeed: there is no transition for them.                         *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l
Init == t \in 1..Len(Trace) /\ l = 1
Next == /\ l = 1 /\ l' = 2 /\ t' = t
        /\ PrintT(<<"BAD", t, l, {<<IOEnv.PROP, "unexpected " \o Trace[t].evs[l].err>>}>>)
        /\ PrintT(<<"DONE", t>>)
=============================================================================
