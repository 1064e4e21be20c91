-------------------------------- MODULE Dist --------------------------------
(* Probability distributions used by the library, over F64 reals. *)
EXTENDS F64, Integers, Sequences

LN2PI == "1.8378770664093453"
LNPI  == "1.1447298858494002"
LN2   == "0.6931471805599453"
FNAdd3(a, b, c) == FAdd(FAdd(a, b), c)
SeqOf(n, F(_)) == Force([i \in 1..n |-> F(i)])
SumOf(n, F(_)) == FSum([i \in 1..n |-> F(i)])
RECURSIVE FProd(_)
FProd(s) == IF s = <<>> THEN "1.0" ELSE FMul(Head(s), FProd(Tail(s)))

(* Beta *)
LnBeta(a, b) == FSub(FAdd(FLGamma(a), FLGamma(b)), FLGamma(FAdd(a, b)))
BetaLogPdf(x, a, b) ==
   FSub(FAdd(FXlogY(FSub(a, 1), x),
             IF FEq(b, 1) THEN 0 ELSE FMul(FSub(b, 1), FLog1p(FNeg(x)))),
        LnBeta(a, b))
BetaMean(a, b) == FDiv(a, FAdd(a, b))
MeanLogBeta(a, b) == FSub(FDigamma(a), FDigamma(FAdd(a, b)))
\* k-th raw moment, k >= 0
RECURSIVE BetaMom(_, _, _)
BetaMom(a, b, k) ==
   IF k = 0 THEN "1.0"
   ELSE FMul(BetaMom(a, b, k-1), FDiv(FAdd(a, k-1), FAdd(FAdd(a, b), k-1)))

(* Binomial and beta-binomial log mass *)
LnChoose(n, k) == FSub(FLGamma(n + 1), FAdd(FLGamma(k + 1), FLGamma(n - k + 1)))
BinomLogPmf(k, n, p) ==
   FAdd(LnChoose(n, k), FAdd(FXlogY(k, p), FXlogY(n - k, FSub(1, p))))
BetaBinomLogPmf(k, n, a, b) ==
   FAdd(LnChoose(n, k), FSub(LnBeta(FAdd(k, a), FAdd(n - k, b)), LnBeta(a, b)))

(* Dirichlet *)
DirLnNorm(al) == FSub(FLGamma(FSum(al)), FSum([i \in 1..Len(al) |-> FLGamma(al[i])]))
DirLogPdf(w, al) ==
   FAdd(DirLnNorm(al), FSum([i \in 1..Len(al) |-> FXlogY(FSub(al[i], 1), w[i])]))

(* Multivariate normal given covariance; Student-t and normal given precision *)
MvnLogPdf(x, mu, sigma) ==
   LET D == Len(mu)
       q == MQuad(VSub(x, mu), MInv(sigma))
   IN  FMul("-0.5", FNAdd3(FMul(D, LN2PI), MLogDet(sigma), q))
\* with the inverse and log determinant already computed
MvnLogPdfI(x, mu, isig, ldet) ==
   FMul("-0.5", FNAdd3(FMul(Len(mu), LN2PI), ldet, MQuad(VSub(x, mu), isig)))
StudentPdf(x, mu, prec, nu) ==
   LET D == Len(mu)
       q == MQuad(VSub(x, mu), prec)
       h == FDiv(FAdd(nu, D), 2)
   IN FExp(FSub(FAdd(FSub(FLGamma(h), FLGamma(FDiv(nu, 2))),
                     FDiv(FSub(MLogDet(prec), FMul(D, FAdd(FLog(nu), LNPI))), 2)),
                FMul(h, FLog1p(FDiv(q, nu)))))
NormalPrecPdf(x, mu, prec) ==
   FExp(FMul("0.5", FSub(FSub(MLogDet(prec), FMul(Len(mu), LN2PI)),
                         MQuad(VSub(x, mu), prec))))

(* Wishart(W, nu) in the notation of Bishop, appendix B *)
WishLnB(W, nu) ==
   LET D == Len(W)
   IN FNeg(FAdd(FMul(FDiv(nu, 2), MLogDet(W)),
                FNAdd3(FMul(FDiv(FMul(nu, D), 2), LN2),
                       FMul(FDiv(D * (D - 1), 4), LNPI),
                       FSum([i \in 1..D |-> FLGamma(FDiv(FAdd(nu, 1 - i), 2))]))))
WishELogDet(W, nu) ==
   LET D == Len(W)
   IN FNAdd3(FSum([i \in 1..D |-> FDigamma(FDiv(FAdd(nu, 1 - i), 2))]),
             FMul(D, LN2), MLogDet(W))
WishEntropy(W, nu) ==
   LET D == Len(W)
   IN FAdd(FSub(FNeg(WishLnB(W, nu)),
                FMul(FDiv(FSub(nu, D + 1), 2), WishELogDet(W, nu))),
           FDiv(FMul(nu, D), 2))
=============================================================================
