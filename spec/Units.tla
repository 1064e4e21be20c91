-------------------------------- MODULE Units --------------------------------
(***************************************************************************)
(* Changes of units and of coordinates.  A change u multiplies by c > 0,    *)
(* reorders the variables (the k-th new one is the p[k]-th old one), gives  *)
(* them signs g and moves the origin by s.  What every quantity of a        *)
(* mixture becomes under it; probabilities, assignments, weights and        *)
(* affinities stay the same.                                                *)
(***************************************************************************)
EXTENDS VarMix

NoUnits(D) == [c |-> "1.0", p |-> [k \in 1..D |-> k], g |-> [k \in 1..D |-> "1.0"], s |-> [k \in 1..D |-> "0.0"]]
UVec(u, v) == [k \in 1..Len(v) |-> FAdd(FMul(FMul(u.c, u.g[k]), v[u.p[k]]), u.s[k])]
UMat(u, f, a) == [k \in 1..Len(a) |-> [m \in 1..Len(a) |-> FMul(FMul(f, FMul(u.g[k], u.g[m])), a[u.p[k]][u.p[m]])]]
UCov(u, a) == UMat(u, FMul(u.c, u.c), a)                    \* covariances and scale matrices
UPrec(u, a) == UMat(u, FDiv(1, FMul(u.c, u.c)), a)          \* precisions
UData(u, Y) == [i \in 1..Len(Y) |-> UVec(u, Y[i])]
UPrior(u, p) == [p EXCEPT !.m = UVec(u, @), !.psi = UCov(u, @)]
UAtom(u, a) == IF a = <<>> THEN a ELSE <<UVec(u, a[1]), UCov(u, a[2])>>
USoft(u, a) == <<UVec(u, a[1]), a[2], UPrec(u, a[3]), a[4]>>
UState(u, s) == [s EXCEPT !.th = [j \in DOMAIN @ |-> UAtom(u, @[j])]]
UVar(u, s) == [s EXCEPT !.th = [j \in DOMAIN @ |-> USoft(u, @[j])]]
UDens(u, f, D) == FDiv(f, FPow(u.c, D))                     \* a density in D variables
ULog(u, x, n, D) == FSub(x, FMul(FMul(n, D), FLog(u.c)))    \* a log density of n observations of D variables
\* where the old variables (1-based) are now
UDims(u, dim) == [k \in 1..Len(dim) |-> CHOOSE m \in 1..Len(u.p) : u.p[m] = dim[k]]
=============================================================================
