------------------------------- MODULE MixLaws -------------------------------
(***************************************************************************)
(* Gaussian mixtures with normal-inverse-Wishart atoms: priors, posteriors, *)
(* likelihoods and densities.  A state of a sampler is a record             *)
(*   w: weights, u: slices, d: assignments (0,1,...),                       *)
(*   th: th[j] = <<mean, covariance>> of component j (<<>>: no atom)        *)
(***************************************************************************)
EXTENDS WeightLaws

RECURSIVE VSumS(_), MSumS(_)
VSumS(s) == IF Len(s) = 1 THEN s[1] ELSE VAdd(Head(s), VSumS(Tail(s)))
MSumS(s) == IF Len(s) = 1 THEN s[1] ELSE MAdd(Head(s), MSumS(Tail(s)))
MeanOf(Y) == VScale(FDiv(1, Len(Y)), VSumS(Y))
ScatterOf(Y) == LET m == MeanOf(Y) IN
   MSumS([i \in 1..Len(Y) |-> LET v == VSub(Y[i], m) IN MOuter(v, v)])
CovOf(Y) == MScale(FDiv(1, Len(Y) - 1), ScatterOf(Y))

(* the prior: what the user gave, or what the data give *)
PriorOf(pr, Y) ==
   [m |-> IF pr.mu = <<>> THEN MeanOf(Y) ELSE pr.mu,
    l |-> pr.lam,
    psi |-> IF pr.psi = <<>> THEN CovOf(Y) ELSE pr.psi,
    nu |-> IF pr.nu = "" THEN FNum(Len(Y[1])) ELSE pr.nu]
(* normal-inverse-Wishart posterior given the observations in Y *)
NIWPost(p, Y) ==
   LET n == Len(Y)  b == MeanOf(Y)  L == FAdd(p.l, n)  dv == VSub(b, p.m) IN
   [m |-> VScale(FDiv(1, L), VAdd(VScale(p.l, p.m), VScale(n, b))),
    l |-> L,
    psi |-> MAdd(MAdd(p.psi, ScatterOf(Y)), MScale(FDiv(FMul(p.l, n), L), MOuter(dv, dv))),
    nu |-> FAdd(p.nu, n)]
RECURSIVE FilterIdx(_, _, _)
FilterIdx(Y, d, j) ==
   IF Y = <<>> THEN <<>>
   ELSE (IF Head(d) = j THEN <<Head(Y)>> ELSE <<>>) \o FilterIdx(Tail(Y), Tail(d), j)

\* far enough from singular, whatever the units of the coordinates, for densities to be computed reliably
RegLaw(s) == /\ MPosDef(s)
             /\ FLt(FAdd(FLog("1e-6"), FSum([i \in 1..Len(s) |-> FLog(s[i][i])])), MLogDet(s))
RegTh(th, J) == \A j \in J : th[j + 1] # <<>> /\ RegLaw(th[j + 1][2])

LogN(x, a) == MVNS(x, a[1], a[2])
(* log-likelihood of a state: observations given assignments, and assignments given weights *)
StateLL(s, Y) ==
   FAdd(FSum([i \in 1..Len(Y) |-> LogN(Y[i], s.th[s.d[i] + 1])]),
        FSum([i \in 1..Len(Y) |-> FLog(s.w[s.d[i] + 1])]))
(* density of a mixture at x, in the dimensions dim (1-based; all when empty),
   of a single component (comp >= 0) or of all (comp = -1) *)
MargTh(a, dim) == IF dim = <<>> THEN a
                  ELSE <<[k \in 1..Len(dim) |-> a[1][dim[k]]], MSub(a[2], dim)>>
MixDens(s, x, dim, comp) ==
   LET K == Len(s.w)
       J == IF comp = -1 THEN 1..K ELSE IF comp < K THEN {comp + 1} ELSE {}
       \* a sequence: components outside J contribute nothing
   IN FSum([j \in 1..K |-> IF j \in J
                           THEN FMul(s.w[j], FExp(LogN(x, MargTh(s.th[j], dim)))) ELSE 0])
\* log weight times density of every component at x
CompLog(s, x) == SeqOf(Len(s.w), LAMBDA j : FAdd(FLog(s.w[j]), LogN(x, s.th[j])))
\* distance between the largest and the second largest
Margin(lp) == LET k == FArgMax(lp) IN
   FSub(lp[k], FMaxS([j \in 1..Len(lp) |-> IF j = k THEN "-inf" ELSE lp[j]]))
=============================================================================
