--------------------------- MODULE WeightProtocol ---------------------------
(***************************************************************************)
(* The life of one weighting structure, abstracting the numbers away: a     *)
(* structure is the sequence of the fits its sticks were drawn under (0 is  *)
(* the prior).  MCWeights explores it exhaustively and prints its           *)
(* histories; TraceWeights steps it along the recorded operations.          *)
(***************************************************************************)
EXTENDS Integers, Sequences

PInit       == [sticks |-> <<>>, fit |-> 0]
PFit(s, f)  == [s EXCEPT !.fit = f]
PReset(s)   == [s EXCEPT !.fit = 0]
\* a draw replaces the whole structure by n sticks of the latest fit
PRandom(s, n) == [s EXCEPT !.sticks = [i \in 1..n |-> s.fit]]
\* completions only append, and what they append is of the latest fit
PExtend(s, n) ==
   IF n <= Len(s.sticks) THEN s
   ELSE [s EXCEPT !.sticks = @ \o [i \in 1..(n - Len(@)) |-> s.fit]]
\* positions drawn by an operation that went from s to t
PNew(s, t, isRandom) == IF isRandom THEN 1..Len(t.sticks)
                        ELSE (Len(s.sticks) + 1)..Len(t.sticks)
=============================================================================
