-------------------------------- MODULE VarMix --------------------------------
(***************************************************************************)
(* Mean-field variational inference of Gaussian mixtures (Bishop, 10.2):    *)
(* the coordinate updates, the objective and the predictive densities.      *)
(* A state is a record                                                      *)
(*   r: responsibilities, one row per component                             *)
(*   th: th[j] = <<m, lambda, W, nu>>, the normal-Wishart of component j    *)
(* The distribution of the weights is that of VarLaws fitted to r.          *)
(***************************************************************************)
EXTENDS MixLaws, VarLaws

\* normal-Wishart of a component given its responsibilities
SoftPost(p, Y, rj) ==
   LET N == Len(Y)  D == Len(Y[1])
       n == FSum(rj)
       xb == IF FEq(n, 0) THEN p.m
             ELSE VScale(FDiv(1, n), [k \in 1..D |-> FDot(rj, [i \in 1..N |-> Y[i][k]])])
       sc == MSumS([i \in 1..N |-> LET v == VSub(Y[i], xb) IN MScale(rj[i], MOuter(v, v))])
       L == FAdd(p.l, n)
       dv == VSub(xb, p.m)
   IN [m |-> VScale(FDiv(1, L), VAdd(VScale(p.l, p.m), VScale(n, xb))),
       l |-> L,
       psi |-> MAdd(MAdd(p.psi, sc), MScale(FDiv(FMul(p.l, n), L), MOuter(dv, dv))),
       nu |-> FAdd(p.nu, n)]
\* E log N(x | mu, Lambda) under a normal-Wishart a = <<m, l, W, nu>>
ELogN(x, a) ==
   LET D == Len(x) IN
   FMul("0.5", FSub(FSub(WishELogDet(a[3], a[4]), FMul(D, FAdd(LN2PI, FDiv(1, a[2])))),
                    FMul(a[4], MQuad(VSub(x, a[1]), a[3]))))
\* the same with the expected log determinant e already computed
ELogNE(x, a, e) ==
   LET D == Len(x) IN
   FMul("0.5", FSub(FSub(e, FMul(D, FAdd(LN2PI, FDiv(1, a[2])))), FMul(a[4], MQuad(VSub(x, a[1]), a[3]))))
\* log responsibilities (up to a constant) of every component at x; wl: expected log weights
VLogR(wl, th, es, x) == SeqOf(Len(th), LAMBDA j : FAdd(wl[j], ELogNE(x, th[j], es[j])))
Normalize(lp) == LET s == FLogSumExp(lp) IN SeqOf(Len(lp), LAMBDA j : FExp(FSub(lp[j], s)))
EDets(th) == SeqOf(Len(th), LAMBDA j : WishELogDet(th[j][3], th[j][4]))
WLogs(kind, par, r) == LET q == VParams(kind, par, r) IN
   SeqOf(Len(r), LAMBDA j : VMeanLog(kind, par, r, q, j))
Resp(kind, par, s, X) ==       \* responsibilities at the points X: one row per point
   LET wl == WLogs(kind, par, s.r)  es == EDets(s.th) IN
   SeqOf(Len(X), LAMBDA i : Normalize(VLogR(wl, s.th, es, X[i])))

(* the objective *)
Elbo(kind, par, p, Y, s) ==
   LET K == Len(s.th)  N == Len(Y)  D == Len(Y[1])
       q == VParams(kind, par, s.r)
       es == EDets(s.th)
       px == FSum([j \in 1..K |-> FDot(s.r[j], SeqOf(N, LAMBDA i : ELogNE(Y[i], s.th[j], es[j])))])
       pd == VLogD(kind, par, s.r, q, s.r)
       pw == VLogP(kind, par, s.r, q)
       qw == VLogQ(kind, par, s.r, q)
       qd == FSum([j \in 1..K |-> FSum([i \in 1..N |-> FXlogY(s.r[j][i], s.r[j][i])])])
       lnb == WishLnB(MInv(p.psi), p.nu)
       pth(j) == LET a == s.th[j]  dv == VSub(a[1], p.m) IN
          FAdd(FMul("0.5", FSub(FSub(FAdd(FMul(D, FSub(FLog(p.l), LN2PI)), es[j]),
                                     FMul(D, FDiv(p.l, a[2]))),
                                FMul(FMul(p.l, a[4]), MQuad(dv, a[3])))),
               FSub(FAdd(lnb, FMul(FDiv(FSub(p.nu, D + 1), 2), es[j])),
                    FMul(FDiv(a[4], 2), MTraceMul(p.psi, a[3]))))
       qth(j) == LET a == s.th[j] IN
          FSub(FAdd(FDiv(es[j], 2), FMul(D, FSub(FDiv(FSub(FLog(a[2]), LN2PI), 2), "0.5"))),
               WishEntropy(a[3], a[4]))
   IN FSub(FAdd(FNAdd3(px, pd, pw), FSum([j \in 1..K |-> pth(j)])),
           FNAdd3(qd, qw, FSum([j \in 1..K |-> qth(j)])))

(* densities; dim: 1-based dimensions, all of them when empty *)
MargW(W, dim) == IF dim = <<>> THEN W ELSE MInv(MSub(MInv(W), dim))
MargV(m, dim) == IF dim = <<>> THEN m ELSE [k \in 1..Len(dim) |-> m[dim[k]]]
EapTerm(a, w, x, dim) ==
   LET D == Len(a[1])
       dof == FSub(FAdd(a[4], 1), D)
   IN FMul(w, StudentPdf(x, MargV(a[1], dim),
                         MScale(FDiv(FMul(dof, a[2]), FAdd(1, a[2])), MargW(a[3], dim)), dof))
MapTerm(a, w, x, dim) ==
   LET D == Len(a[1])  c == FSub(a[4], D) IN
   IF FLe(c, 0) THEN "0.0"
   ELSE FMul(w, NormalPrecPdf(x, MargV(a[1], dim), MScale(c, MargW(a[3], dim))))
=============================================================================
