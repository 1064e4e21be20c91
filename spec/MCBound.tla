------------------------------- MODULE MCBound -------------------------------
(***************************************************************************)
(* The objective of the variational fits is a lower bound of the log        *)
(* evidence, which is enumerated exactly here over the assignments of a few *)
(* observations to K groups; it never decreases along the coordinate        *)
(* updates, and with one group it is the log evidence.                      *)
(***************************************************************************)
EXTENDS VarMix, Posterior, TLC
CONSTANTS Steps, Big
P0 == [alpha |-> "1.0", d |-> "0.0", a |-> "1.0", b |-> "1.0", x |-> "0.5", n |-> 3, dalpha |-> <<"1.0">>]
DirP(K) == [k \in 1..K |-> <<"0.5", "2.0", "1.2">>[k]]
Models == {<<"dp", [P0 EXCEPT !.alpha = al]>> : al \in {"0.4", "1.0", "2.5"}}
   \cup {<<"py", [P0 EXCEPT !.alpha = al, !.d = dc]>> : al \in {"-0.1", "0.8"}, dc \in {"0.3", "0.7"}}
   \cup {<<"geo", [P0 EXCEPT !.a = a, !.b = "1.5"]>> : a \in {"1.0", "2.0"}}
   \cup {<<"dir", P0>>, <<"eq", P0>>}
Sets == {<< <<"0.3">>, <<"1.1">>, <<"4.2">> >>,
         << <<"0.1", "2.0">>, <<"1.5", "-1.0">>, <<"3.9", "0.4">> >>}
   \cup (IF Big THEN {<< <<"0.3">>, <<"1.1">>, <<"4.2">>, <<"3.9">> >>} ELSE {})
\* priors: strength of the mean and degrees of freedom beyond the dimension
Strengths == {<<"1.0", "0.5">>, <<"0.2", "3.0">>}
\* rows of responsibilities to start from, one per observation
Rows(K) == CASE K = 1 -> << <<"1.0">> >>
             [] K = 2 -> << <<"0.5", "0.5">>, <<"0.9", "0.1">>, <<"0.0", "1.0">> >>
             [] K = 3 -> << <<"0.2", "0.3", "0.5">>, <<"0.0", "0.0", "1.0">>, <<"0.7", "0.3", "0.0">> >>
VARIABLES m, Y, pr, K, s, n, prev
vars == <<m, Y, pr, K, s, n, prev>>
N == Len(Y)
D == Len(Y[1])
Par == IF m[1] = "dir" THEN [m[2] EXCEPT !.dalpha = DirP(K), !.n = K] ELSE [m[2] EXCEPT !.n = K]
PriorFor(y, p) == PriorOf([mu |-> <<>>, lam |-> p[1], psi |-> <<>>, nu |-> FAdd(Len(y[1]), p[2])], y)
P == PriorFor(Y, pr)
Atoms(p, y, r) == [j \in 1..Len(r) |-> LET q == SoftPost(p, y, r[j]) IN <<q.m, q.l, MInv(q.psi), q.nu>>]
Init == /\ m \in Models /\ Y \in Sets /\ pr \in Strengths /\ K \in 1..3 /\ n = 0 /\ prev = "-inf"
        /\ \E rows \in [1..Len(Y) -> 1..Len(Rows(K))] :
             /\ Big \/ rows[3] = 1
             /\ LET r == [j \in 1..K |-> [i \in 1..Len(Y) |-> Rows(K)[rows[i]][j]]] IN
                s = [r |-> r, th |-> Atoms(PriorFor(Y, pr), Y, r)]
\* responsibilities given the atoms, then the atoms
Next == /\ n < Steps /\ n' = n + 1 /\ UNCHANGED <<m, Y, pr, K>>
        /\ prev' = Elbo(m[1], Par, P, Y, s)
        /\ LET R == Resp(m[1], Par, s, Y)
               r == [j \in 1..K |-> [i \in 1..N |-> R[i][j]]]
           IN s' = [r |-> r, th |-> Atoms(P, Y, r)]
Spec == Init /\ [][Next]_vars
\* expected probability of the assignments z to the groups 1..K
Of(z, j) == NAt(z, j)
Over(z, j) == Cardinality({i \in DOMAIN z : z[i] > j})
WeightE(z) ==
   CASE m[1] \in {"dp", "py"} -> FProd([j \in 1..(K - 1) |-> LET q == PriorStick(m[1], Par, j) IN Mom(q, Of(z, j), Over(z, j))])
     [] m[1] = "geo" -> Mom(<<Par.a, Par.b>>, N, ISum([i \in 1..N |-> z[i] - 1]))
     [] m[1] = "dir" -> FDiv(FProd([j \in 1..K |-> Rising(Par.dalpha[j], Of(z, j))]), Rising(FSum(Par.dalpha), N))
     [] m[1] = "eq" -> FDiv(1, FPow(K, N))
Evidence == LET Z == SetToSeq([1..N -> 1..K]) IN
   FSum([q \in 1..Len(Z) |-> FMul(WeightE(Z[q]), FProd([j \in 1..K |-> BlockLik(P, FilterIdx(Y, Z[q], j))]))])
L == Elbo(m[1], Par, P, Y, s)
LowerBound == FLe(L, FAdd(FLog(Evidence), "1e-8"))
Exact == K = 1 => FClose(L, FLog(Evidence), 0, "1e-8")
NoLoss == FLe(prev, FAdd(L, "1e-9"))
Columns == \A i \in 1..N : FClose(FSum([j \in 1..K |-> s.r[j][i]]), 1, "1e-9", 0)
=============================================================================
