----------------------------- MODULE WeightLaws -----------------------------
(***************************************************************************)
(* The laws of the weighting models: what a stick (or a weight vector) is   *)
(* drawn from, given the parameters and the fitted assignments, the moments *)
(* of those laws, and the log-likelihoods.                                  *)
(*   kinds: dir dp py geo bib bid bb bn eq fr                               *)
(*   par: alpha d a b x p n dalpha (reals, but n an integer)                *)
(*   d: fitted assignments, a sequence of group numbers 0,1,...             *)
(***************************************************************************)
EXTENDS Dist, FiniteSets

NAt(d, j)     == Cardinality({i \in DOMAIN d : d[i] = j})
NBeyond(d, j) == Cardinality({i \in DOMAIN d : d[i] > j})
RECURSIVE ISum(_)
ISum(s) == IF s = <<>> THEN 0 ELSE Head(s) + ISum(Tail(s))
RECURSIVE ISumSet(_, _)
ISumSet(S, f) == IF S = {} THEN 0 ELSE LET i == CHOOSE i \in S : TRUE
                                      IN f[i] + ISumSet(S \ {i}, f)
IMax(S) == CHOOSE x \in S : \A y \in S : x >= y
DMax(d) == IMax({d[i] : i \in DOMAIN d} \cup {-1})

StickKinds  == {"dp", "py", "geo", "bib", "bid", "bb", "bn"}
FiniteKinds == {"dir", "eq", "fr"}
TieKinds    == {"bid", "bb", "bn"}
OneStick(kind, par) == kind = "geo" \/ (kind = "bib" /\ FEq(par.x, 1))
\* sticks independent given the parameters (and p)
Indep(kind, par) == kind \in {"dp", "py"} \/ (kind = "bib" /\ ~FEq(par.x, 1))

(* sticks of a weight vector, and the mass left before each of them *)
Left(w) == LET c == FCumSum(w) IN SeqOf(Len(w), LAMBDA j : IF j = 1 THEN "1.0" ELSE FSub(1, c[j-1]))
Sticks(w) == LET r == Left(w) IN SeqOf(Len(w), LAMBDA j : FDiv(w[j], r[j]))

(* Beta parameters of stick j (0,1,...) *)
C(par) == FDiv(par.x, FSub(1, par.x))
StickLaw(kind, par, d, p, j) ==
   CASE kind = "dp"  -> <<FNum(1 + NAt(d, j)), FAdd(par.alpha, NBeyond(d, j))>>
     [] kind = "py"  -> <<FAdd(FSub(1, par.d), NAt(d, j)),
                          FNAdd3(par.alpha, FMul(j + 1, par.d), NBeyond(d, j))>>
     [] OneStick(kind, par) -> <<FAdd(par.a, Len(d)), FAdd(par.b, ISum(d))>>
     [] kind = "bib" -> <<FNAdd3(1, FMul(C(par), p), NAt(d, j)),
                          FNAdd3(par.alpha, FMul(C(par), FSub(1, p)), NBeyond(d, j))>>

(* beta-in-beta: the common parameter, drawn without a fit or after one by method pm *)
PLaw(par, d, pm) ==
   IF d # <<>> /\ pm = "geometric" THEN <<FAdd(par.a, Len(d)), FAdd(par.b, ISum(d))>>
   ELSE <<par.a, par.b>>
\* log density of sticks v and the parameter q together
PLogLik(par, q, v) ==
   LET la == FAdd(1, FMul(C(par), q))
       lb == FAdd(par.alpha, FMul(C(par), FSub(1, q)))
   IN FAdd(BetaLogPdf(q, par.a, par.b),
           FSub(FAdd(FMul(FSub(la, 1), FSum([j \in DOMAIN v |-> FLog(v[j])])),
                     FMul(FSub(lb, 1), FSum([j \in DOMAIN v |-> FLog1p(FNeg(v[j]))]))),
                FMul(Len(v), LnBeta(la, lb))))

Same(x, y) == FClose(x, y, "1e-9", "1e-12")
ParOK(dr, law) == FClose(dr[1], law[1], "1e-7", "1e-9") /\ FClose(dr[2], law[2], "1e-7", "1e-9")
IntIn(x, lo, hi) == LET r == FRound(x) IN FClose(x, r, 0, "1e-6") /\ lo <= r /\ r <= hi

\* the run of equal sticks around position i (1-based)
Block(v, i) == {k \in DOMAIN v : \A m \in DOMAIN v :
                  ((m >= k /\ m <= i) \/ (m <= k /\ m >= i)) => FClose(v[m], v[i], "1e-9", "1e-12")}
(* may a random number drawn from Beta(dr[1], dr[2]) be stick i (1-based)? *)
DrawOK(kind, par, d, p, v, i, dr) ==
   LET j == i - 1  g == DMax(d) IN
   CASE kind \in {"dp", "py", "geo", "bib"} -> ParOK(dr, StickLaw(kind, par, d, p, j))
     [] kind = "bb" ->
          LET B == Block(v, i) IN
          ParOK(dr, <<FNum(1 + ISumSet(B, [k \in B |-> NAt(d, k - 1)])),
                      FAdd(par.alpha, ISumSet(B, [k \in B |-> NBeyond(d, k - 1)]))>>)
     [] kind = "bid" ->
          \E S \in SUBSET (0..g) :
             ParOK(dr, <<FNum(1 + ISumSet(S, [k \in S |-> NAt(d, k)])),
                         FAdd(par.alpha, ISumSet(S, [k \in S |-> NBeyond(d, k)]))>>)
     [] kind = "bn" ->
          \E k \in (IF j <= g THEN {1, 2} ELSE {1}) :
             /\ FClose(FAdd(dr[1], dr[2]),
                       FAdd(par.alpha, 1 + NAt(d, j) + NBeyond(d, j) + k * par.n), "1e-7", "1e-9")
             /\ IntIn(FSub(dr[1], 1 + NAt(d, j)), 0, k * par.n)

(* log density of a drawn structure w; z: latent binomials of "bn" *)
WLogLik(kind, par, w, p, z) ==
   LET v == Sticks(w)  n == Len(w)
       tied(j) == FClose(v[j], v[j-1], "1e-9", "1e-12")
       first(j) == \A i \in 1..(j-1) : ~FClose(v[i], v[j], "1e-9", "1e-12")
   IN
   CASE kind \in {"eq", "fr"} -> "0.0"
     [] kind = "dir" -> DirLogPdf(w, par.dalpha)
     [] kind \in {"dp", "py"} ->
          FSum([j \in 1..n |-> LET l == StickLaw(kind, par, <<>>, p, j - 1)
                               IN BetaLogPdf(v[j], l[1], l[2])])
     [] OneStick(kind, par) -> BetaLogPdf(v[1], par.a, par.b)
     [] kind = "bib" ->
          FAdd(FSum([j \in 1..n |-> LET l == StickLaw(kind, par, <<>>, p, j - 1)
                                    IN BetaLogPdf(v[j], l[1], l[2])]),
               IF FEq(par.x, 0) THEN 0 ELSE BetaLogPdf(p, par.a, par.b))
     [] kind = "bb" ->
          FSum([j \in 1..n |->
            IF j = 1 THEN BetaLogPdf(v[1], 1, par.alpha)
            ELSE IF tied(j) THEN FLog(FSub(1, par.p))
            ELSE FAdd(FLog(par.p), BetaLogPdf(v[j], 1, par.alpha))])
     [] kind = "bn" ->
          FSum([j \in 1..n |->
            FAdd(IF j = 1 THEN BetaBinomLogPmf(z[1], par.n, 1, par.alpha)
                 ELSE BinomLogPmf(z[j], par.n, v[j-1]),
                 BetaLogPdf(v[j], FNum(1 + z[j]), FAdd(par.alpha, par.n - z[j])))])
     [] kind = "bid" ->
          LET F == {j \in 1..n : first(j)}
              cnt(j) == Cardinality({i \in 1..n : FClose(v[i], v[j], "1e-9", "1e-12")})
              k == Cardinality(F)
          IN FAdd(FSum([j \in 1..n |-> IF j \in F
                                       THEN FAdd(BetaLogPdf(v[j], 1, par.alpha), FLGamma(cnt(j))) ELSE 0]),
                  IF FEq(par.a, 0) THEN (IF k = 1 THEN FNeg(FLGamma(n)) ELSE "-inf")
                  ELSE FNAdd3(FMul(k, FLog(par.a)), FLGamma(par.a), FNeg(FLGamma(FAdd(par.a, n)))))

(* moments: E v_j, E v_j^2, E v_j^4, E v_j v_{j+1} and E (v_j v_{j+1})^2 *)
M4(l) == [k \in 1..4 |-> BetaMom(l[1], l[2], k)]
\* given the previous stick u: E v and E v^2 of the beta-binomial chain, as moments of u
BnCross(par, k) ==   \* E[u^k v^k], k = 1, 2
   LET n == par.n
       A == FAdd(par.alpha, n + 1)
       m == [i \in 1..4 |-> BetaMom(1, par.alpha, i)]
   IN IF k = 1 THEN FDiv(FAdd(m[1], FMul(n, m[2])), A)
      ELSE \* E[(1+z)(2+z)|u] = 2 + 3nu + nu(1-u) + n^2 u^2
           FDiv(FNAdd3(FMul(2, m[2]), FMul(4 * n, m[3]), FMul(n * n - n, m[4])),
                FMul(A, FAdd(A, 1)))
=============================================================================
