-------------------------------- MODULE Gibbs --------------------------------
(***************************************************************************)
(* The life of a Gibbs sampler object: chains of sweeps, which of them are  *)
(* saved, and which is the best one visited.  Numbers are abstracted away:  *)
(* a state of the chain is its position <<chain, sweep>> (sweep 0 is the    *)
(* initial state of a cold fit) and its merit is an arbitrary integer.      *)
(***************************************************************************)
EXTENDS Integers, Sequences

GInit == [chain |-> 0, pos |-> 0, saved |-> <<>>, fitted |-> FALSE, best |-> <<0, 0>>]
GCold(g) == [g EXCEPT !.chain = @ + 1, !.pos = 0, !.saved = <<>>, !.best = <<g.chain + 1, 0>>]
\* sweeps numbered n+1.. of a fit with burn-in B and thinning s are saved when
IsSaved(i, B, s) == i > B /\ (i - B - 1) % s = 0
\* one sweep, the i-th of this fit; better: is it better than the best so far
GSweep(g, i, B, s, better) ==
   [g EXCEPT !.pos = @ + 1,
             !.saved = IF IsSaved(i, B, s) THEN Append(@, <<g.chain, g.pos + 1>>) ELSE @,
             !.best = IF better THEN <<g.chain, g.pos + 1>> ELSE @]
GDone(g) == [g EXCEPT !.fitted = TRUE]
\* a whole fit, the merit left aside
RECURSIVE GSweeps(_, _, _, _, _)
GSweeps(g, i, T, B, s) == IF i > T THEN g ELSE GSweeps(GSweep(g, i, B, s, FALSE), i + 1, T, B, s)
GFit(g, warm, T, B, s) == GDone(GSweeps(IF warm THEN g ELSE GCold(g), 1, T, B, s))
\* how many states a fit of T sweeps saves
NSaved(T, B, s) == IF T <= B THEN 0 ELSE (T - B - 1) \div s + 1
=============================================================================
