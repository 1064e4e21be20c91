------------------------------- MODULE VarLaws -------------------------------
(***************************************************************************)
(* The variational distribution q(w) of each weighting model given soft     *)
(* assignments vd (k rows, one column per observation), truncated at k, and *)
(* its exact expectations.                                                  *)
(***************************************************************************)
EXTENDS WeightLaws

SoftN(vd) == SeqOf(Len(vd), LAMBDA j : FSum(vd[j]))
NCols(vd) == IF Len(vd) = 0 THEN 0 ELSE Len(vd[1])
BeyondOf(n, j) == FSum([i \in 1..Len(n) |-> IF i > j THEN n[i] ELSE 0])
\* prior and fitted Beta parameters of the sticks (j = 1..k-1) of dp and py
PriorStick(kind, par, j) ==
   IF kind = "dp" THEN <<"1.0", FNum(par.alpha)>>
   ELSE <<FSub(1, par.d), FAdd(par.alpha, FMul(j, par.d))>>
GeoPost(par, vd) ==
   <<FAdd(par.a, NCols(vd)),
     FAdd(par.b, FSum([j \in 1..Len(vd) |-> FMul(j - 1, FSum(vd[j]))]))>>
\* parameters: a sequence of pairs (sticks), one pair (geo) or the Dirichlet vector
VParams(kind, par, vd) ==
   LET n == SoftN(vd)  k == Len(vd) IN
   CASE kind \in {"dp", "py"} ->
          SeqOf(k - 1, LAMBDA j : LET q == PriorStick(kind, par, j) IN
                  <<FAdd(q[1], n[j]), FAdd(q[2], BeyondOf(n, j))>>)
     [] kind = "geo" -> GeoPost(par, vd)
     [] kind = "dir" -> SeqOf(k, LAMBDA j : FAdd(par.dalpha[j], n[j]))
     [] OTHER -> <<>>
(* expectations given q = VParams; j is 1-based *)
VMean(kind, par, vd, q, j) ==
   LET k == Len(vd) IN
   IF j > k THEN "0.0" ELSE
   CASE kind \in {"dp", "py"} ->
          FMul(FProd([i \in 1..(j-1) |-> BetaMean(q[i][2], q[i][1])]),
               IF j < k THEN BetaMean(q[j][1], q[j][2]) ELSE 1)
     [] kind = "geo" ->  \* E[p (1-p)^(j-1)]
          FExp(FSub(LnBeta(FAdd(q[1], 1), FAdd(q[2], j - 1)), LnBeta(q[1], q[2])))
     [] kind = "dir" -> FDiv(q[j], FSum(q))
     [] kind = "eq" -> FDiv(1, k)
     [] kind = "fr" -> IF NCols(vd) = 0 THEN FDiv(1, k) ELSE FDiv(FSum(vd[j]), FSum(SoftN(vd)))
VMeanLog(kind, par, vd, q, j) ==
   LET k == Len(vd) IN
   IF j > k THEN "-inf" ELSE
   CASE kind \in {"dp", "py"} ->
          FAdd(FSum([i \in 1..(j-1) |-> MeanLogBeta(q[i][2], q[i][1])]),
               IF j < k THEN MeanLogBeta(q[j][1], q[j][2]) ELSE 0)
     [] kind = "geo" -> FAdd(MeanLogBeta(q[1], q[2]), FMul(j - 1, MeanLogBeta(q[2], q[1])))
     [] kind = "dir" -> FSub(FDigamma(q[j]), FDigamma(FSum(q)))
     [] OTHER -> FLog(VMean(kind, par, vd, q, j))
ELogBeta(a0, b0, a, b) ==   \* E_{Beta(a,b)} log Beta(v; a0, b0)
   FSub(FAdd(FMul(FSub(a0, 1), MeanLogBeta(a, b)), FMul(FSub(b0, 1), MeanLogBeta(b, a))),
        LnBeta(a0, b0))
VLogP(kind, par, vd, q) ==
   CASE kind \in {"dp", "py"} ->
          FSum([j \in 1..(Len(vd)-1) |-> LET p0 == PriorStick(kind, par, j) IN
                  ELogBeta(p0[1], p0[2], q[j][1], q[j][2])])
     [] kind = "geo" -> ELogBeta(par.a, par.b, q[1], q[2])
     [] kind = "dir" ->
          FAdd(DirLnNorm(par.dalpha),
               FSum([j \in 1..Len(vd) |-> FMul(FSub(par.dalpha[j], 1), VMeanLog(kind, par, vd, q, j))]))
     [] OTHER -> "0.0"
VLogQ(kind, par, vd, q) ==
   CASE kind \in {"dp", "py"} ->
          FSum([j \in 1..(Len(vd)-1) |-> ELogBeta(q[j][1], q[j][2], q[j][1], q[j][2])])
     [] kind = "geo" -> ELogBeta(q[1], q[2], q[1], q[2])
     [] kind = "dir" ->
          FAdd(DirLnNorm(q),
               FSum([j \in 1..Len(vd) |-> FMul(FSub(q[j], 1), VMeanLog(kind, par, vd, q, j))]))
     [] OTHER -> "0.0"
\* expected log-likelihood of soft assignments vd2 under q
VLogD(kind, par, vd, q, vd2) ==
   FSum([j \in 1..Len(vd2) |-> LET n == FSum(vd2[j]) IN
          IF FEq(n, 0) THEN 0 ELSE FMul(n, VMeanLog(kind, par, vd, q, j))])
(* modes: "undefined" when a Beta involved has both parameters <= 1 *)
BMode(a, b) ==
   IF FLe(a, "1.000000001") THEN (IF FLe(b, "1.000000001") THEN "undefined"
                                  ELSE IF FLe(a, 1) THEN "0.0" ELSE FDiv(FSub(a, 1), FSub(FAdd(a, b), 2)))
   ELSE IF FLe(b, 1) THEN "1.0" ELSE FDiv(FSub(a, 1), FSub(FAdd(a, b), 2))
VMode(kind, par, vd, q, j) ==
   LET k == Len(vd) IN
   IF j > k THEN "0.0" ELSE
   CASE kind \in {"dp", "py"} ->
          LET M == [i \in 1..(IF j < k THEN j ELSE k - 1) |-> BMode(q[i][1], q[i][2])] IN
          IF \E i \in DOMAIN M : M[i] = "undefined" THEN "undefined"
          ELSE FMul(FProd([i \in 1..(j-1) |-> FSub(1, M[i])]), IF j < k THEN M[j] ELSE 1)
     [] kind = "geo" -> LET m == BMode(q[1], q[2]) IN
          IF m = "undefined" THEN m ELSE FMul(m, FPow(FSub(1, m), j - 1))
     [] kind = "dir" -> BMode(q[j], FSub(FSum(q), q[j]))
     [] OTHER -> VMean(kind, par, vd, q, j)
=============================================================================
