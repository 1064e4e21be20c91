------------------------------- MODULE VarFit -------------------------------
(***************************************************************************)
(* The life of a variational fit: a deterministic sequence of iterations,   *)
(* how far along it an object is, and why its last fit stopped.  Numbers    *)
(* are left aside: what matters of the k-th iteration is whether it changed *)
(* the objective by no more than the tolerance of the fit.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences

XInit == [fitted |-> FALSE, pos |-> 0, conv |-> FALSE]
XMin(S) == CHOOSE x \in S : \A y \in S : x <= y
\* one fit of at most T iterations; small(k): did iteration k (counted from the start of the
\* sequence) change the objective by no more than the tolerance?  The first iteration of a fit
\* has nothing to be compared with.
XStops(start, T, small(_)) == {k \in 2..T : small(start + k)}
XFit(x, warm, T, small(_)) ==
   LET start == IF warm THEN x.pos ELSE 0
       stops == XStops(start, T, small)
   IN [fitted |-> TRUE, pos |-> start + (IF stops = {} THEN T ELSE XMin(stops)), conv |-> stops # {}]
\* the same when some comparisons are too close to call: must(k) => may(k)
XFits(x, warm, T, must(_), may(_)) ==
   LET start == IF warm THEN x.pos ELSE 0
       sure == XStops(start, T, must)
       last == IF sure = {} THEN T ELSE XMin(sure)
       stops == {k \in 2..last : may(start + k)}
   IN {[fitted |-> TRUE, pos |-> start + k, conv |-> TRUE] : k \in stops}
      \cup (IF sure = {} THEN {[fitted |-> TRUE, pos |-> start + T, conv |-> FALSE]} ELSE {})
=============================================================================
