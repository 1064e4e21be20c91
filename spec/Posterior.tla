------------------------------ MODULE Posterior ------------------------------
(***************************************************************************)
(* The exact posterior of a mixture given a few observations, by            *)
(* enumeration of their partitions: what a Gibbs sampler must converge to.  *)
(* The prior probability of a partition comes from the law of the weights,  *)
(* the likelihood of a block integrates out its normal-inverse-Wishart      *)
(* atom.                                                                    *)
(***************************************************************************)
EXTENDS MixLaws, SequencesExt

(* a law of independent sticks: all Beta(q[1], q[2]), or all equal to q[1] *)
Mom(q, r, s) == IF Len(q) = 1 THEN FMul(FPow(q[1], r), FPow(FSub(1, q[1]), s))
                ELSE FExp(FSub(LnBeta(FAdd(q[1], r), FAdd(q[2], s)), LnBeta(q[1], q[2])))
Drop(S, i) == SubSeq(S, 1, i - 1) \o SubSeq(S, i + 1, Len(S))
\* expected sum, over distinct groups j_1, j_2, .., of w_{j_1}^{S[1]} w_{j_2}^{S[2]} ..
RECURSIVE StickE(_, _)
StickE(q, S) == IF S = <<>> THEN "1.0"
   ELSE LET n == ISum(S) IN
        FDiv(FSum([i \in 1..Len(S) |-> FMul(Mom(q, S[i], n - S[i]), StickE(q, Drop(S, i)))]),
             FSub(1, Mom(q, 0, n)))
\* the same with j_1 = 0
StickF(q, S) == FMul(Mom(q, S[1], ISum(S) - S[1]), StickE(q, Tail(S)))
RECURSIVE Rising(_, _)
Rising(a, k) == IF k = 0 THEN "1.0" ELSE FMul(Rising(a, k - 1), FAdd(a, k - 1))
PyE(al, dc, S) ==
   IF S = <<>> THEN "1.0"
   ELSE FMul(FDiv(FProd([i \in 1..(Len(S) - 1) |-> FAdd(al, FMul(i, dc))]), Rising(FAdd(al, 1), ISum(S) - 1)),
             FProd([i \in 1..Len(S) |-> Rising(FSub(1, dc), S[i] - 1)]))
PyF(al, dc, S) == FMul(Mom(<<FSub(1, dc), FAdd(al, dc)>>, S[1], ISum(S) - S[1]), PyE(FAdd(al, dc), dc, Tail(S)))
\* labelled groups 1..n: all the ways of naming the blocks
Names(n, k) == {f \in [1..k -> 1..n] : \A i, j \in 1..k : i # j => f[i] # f[j]}
DirTerm(al, S, f) == FProd([i \in 1..Len(S) |-> Rising(al[f[i]], S[i])])
DirSum(al, S, F) == FDiv(FSum([i \in 1..Len(F) |-> DirTerm(al, S, F[i])]), Rising(FSum(al), ISum(S)))
DirE(al, S) == DirSum(al, S, SetToSeq(Names(Len(al), Len(S))))
DirF(al, S) == DirSum(al, S, SetToSeq({f \in Names(Len(al), Len(S)) : f[1] = 1}))
EqE(n, S) == FDiv(Cardinality(Names(n, Len(S))), FPow(n, ISum(S)))

(* the laws of the sticks given a common parameter, with its density on a grid *)
Grid == 400
GridOf(a, b, q(_)) ==
   LET x == SeqOf(Grid, LAMBDA i : FDiv(FSub(i, "0.5"), Grid))
       h == SeqOf(Grid, LAMBDA i : FExp(BetaLogPdf(x[i], a, b)))
       s == FSum(h)
   IN SeqOf(Grid, LAMBDA i : <<FDiv(h[i], s), q(x[i])>>)
StickLaws(kind, par) ==
   CASE kind = "dp" \/ (kind = "bib" /\ FEq(par.x, 0)) -> << <<"1.0", <<"1.0", FNum(par.alpha)>>>> >>
     [] OneStick(kind, par) -> GridOf(par.a, par.b, LAMBDA v : <<v>>)
     [] kind = "bib" -> GridOf(par.a, par.b, LAMBDA p : <<FAdd(1, FMul(C(par), p)),
                                                          FAdd(par.alpha, FMul(C(par), FSub(1, p)))>>)
\* probability of a partition with blocks of sizes S, and of that with the first block in group 0
PartE(kind, par, S) ==
   CASE kind = "py" -> PyE(par.alpha, par.d, S)
     [] kind = "dir" -> DirE(par.dalpha, S)
     [] kind = "eq" -> EqE(par.n, S)
     [] OTHER -> LET L == StickLaws(kind, par) IN FSum([i \in 1..Len(L) |-> FMul(L[i][1], StickE(L[i][2], S))])
PartF(kind, par, S) ==
   CASE kind = "py" -> PyF(par.alpha, par.d, S)
     [] kind = "dir" -> DirF(par.dalpha, S)
     [] kind = "eq" -> FDiv(EqE(par.n, S), par.n)
     [] OTHER -> LET L == StickLaws(kind, par) IN FSum([i \in 1..Len(L) |-> FMul(L[i][1], StickF(L[i][2], S))])

(* partitions as sequences of block numbers 1,2,.. in order of appearance *)
RECURSIVE Parts(_)
Parts(n) == IF n = 1 THEN {<<1>>}
            ELSE UNION {{Append(c, k) : k \in 1..(IMax({c[i] : i \in DOMAIN c}) + 1)} : c \in Parts(n - 1)}
BlocksOf(c) == IMax({c[i] : i \in DOMAIN c})
Sizes(c) == [k \in 1..BlocksOf(c) |-> NAt(c, k)]

(* predictive density of x and marginal likelihood of a block *)
PredNIW(p, x) == LET D == Len(x)  dof == FSub(FAdd(p.nu, 1), D) IN
   StudentPdf(x, p.m, MScale(FDiv(FMul(p.l, dof), FAdd(p.l, 1)), MInv(p.psi)), dof)
Upd(p, Y) == IF Y = <<>> THEN p ELSE NIWPost(p, Y)
BlockLik(p, Y) == FProd([i \in 1..Len(Y) |-> PredNIW(Upd(p, SubSeq(Y, 1, i - 1)), Y[i])])
PartLik(p, Y, c) == FProd([k \in 1..BlocksOf(c) |-> BlockLik(p, FilterIdx(Y, c, k))])
=============================================================================
