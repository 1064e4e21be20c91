----------------------------- MODULE MCPosterior -----------------------------
(***************************************************************************)
(* The laws of partitions of module Posterior are consistent, whatever the  *)
(* model: probabilities that add up to one, whose restriction to one        *)
(* observation less is the law for one observation less, exchangeable, with *)
(* the first block in the first group as a part of them.                    *)
(***************************************************************************)
EXTENDS Posterior, TLC
CONSTANTS MaxN
P0 == [alpha |-> "1.0", d |-> "0.0", a |-> "1.0", b |-> "1.0", x |-> "0.5", n |-> 3, dalpha |-> <<"1.0">>]
Models == {<<"dp", [P0 EXCEPT !.alpha = al]>> : al \in {"0.3", "1.0", "2.5"}}
   \cup {<<"py", [P0 EXCEPT !.alpha = al, !.d = dc]>> : al \in {"0.0", "0.8"}, dc \in {"0.15", "0.3", "0.7"}}
   \cup {<<"geo", [P0 EXCEPT !.a = a, !.b = b]>> : a \in {"1.0", "2.0"}, b \in {"1.0", "1.5"}}
   \cup {<<"bib", [P0 EXCEPT !.a = a, !.alpha = al, !.x = x]>> : a \in {"1.0", "2.0"}, al \in {"1.0", "2.0"},
                                                                 x \in {"0.0", "0.5", "1.0"}}
   \cup {<<"dir", [P0 EXCEPT !.dalpha = v]>> : v \in {<<"1.0", "1.0", "1.0">>, <<"0.5", "2.0", "1.0", "0.8">>}}
   \cup {<<"eq", [P0 EXCEPT !.n = n]>> : n \in 1..5}
VARIABLES m, n
Init == m \in Models /\ n = 1
Next == n < MaxN /\ n' = n + 1 /\ UNCHANGED m
Spec == Init /\ [][Next]_<<m, n>>
E(S) == PartE(m[1], m[2], S)
F(S) == PartF(m[1], m[2], S)
FSumSet(X, f(_)) == LET s == SetToSeq(X) IN FSum([i \in 1..Len(s) |-> f(s[i])])
Total == FClose(FSumSet(Parts(n), LAMBDA c : E(Sizes(c))), 1, "1e-9", 0)
Restricts == n > 1 => \A c \in Parts(n - 1) :
   FClose(E(Sizes(c)), FSumSet({b \in Parts(n) : SubSeq(b, 1, n - 1) = c}, LAMBDA b : E(Sizes(b))), "1e-9", 0)
Exchangeable == \A c \in Parts(n) : FClose(E(Sizes(c)), E(Reverse(Sizes(c))), "1e-9", 0)
First == \A c \in Parts(n) : FLe(0, F(Sizes(c))) /\ FLe(F(Sizes(c)), FAdd(E(Sizes(c)), "1e-12"))
\* for the Dirichlet process, the Chinese restaurant
Restaurant == m[1] = "dp" => \A c \in Parts(n) : LET S == Sizes(c) IN
   FClose(E(S), FMul(FDiv(FPow(m[2].alpha, Len(S)), Rising(m[2].alpha, n)),
                     FProd([i \in 1..Len(S) |-> Rising(1, S[i] - 1)])), "1e-9", 0)
=============================================================================
