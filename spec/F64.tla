-------------------------------- MODULE F64 --------------------------------
(***************************************************************************)
(* IEEE-754 double arithmetic for TLC.  A real number is carried as the     *)
(* decimal string Python prints for it ("0.5", "1e-09", "inf", "nan"); an   *)
(* integer is accepted wherever a real is.  The operators are evaluated by  *)
(* the TLC module override F64.java; the TLA+ bodies below are only         *)
(* signatures (CHOOSE of a real with the stated meaning).                   *)
(***************************************************************************)
LOCAL INSTANCE Naturals
LOCAL INSTANCE Sequences
LOCAL Real == STRING
LOCAL Undef == CHOOSE x \in {"0"} : TRUE

FNum(x) == Undef                 \* canonical string of x
FAdd(x, y) == Undef
FSub(x, y) == Undef
FMul(x, y) == Undef
FDiv(x, y) == Undef
FNeg(x) == Undef
FAbs(x) == Undef
FMax(x, y) == Undef
FMin(x, y) == Undef
FPow(x, y) == Undef
FLog(x) == Undef
FLog1p(x) == Undef
FExp(x) == Undef
FSqrt(x) == Undef
FLGamma(x) == Undef              \* log |Gamma(x)|
FDigamma(x) == Undef
FBetaCdf(x, a, b) == Undef       \* regularized incomplete beta function
FNormCdf(x) == Undef
FXlogY(x, y) == Undef            \* x * log(y), 0 when x = 0
FLt(x, y) == x = y
FLe(x, y) == x = y
FEq(x, y) == x = y
FFin(x) == x = x                 \* neither infinite nor NaN
FClose(x, y, rtol, atol) == x = y   \* equal infinities, or |x-y| <= atol + rtol*max(|x|,|y|)
FRound(x) == CHOOSE n \in Nat : TRUE \* nearest integer, as an integer
FSum(s) == Undef                 \* sum of a sequence
FDot(s, t) == Undef              \* inner product
FMaxS(s) == Undef                \* maximum of a non-empty sequence
FMinS(s) == Undef
FLogSumExp(s) == Undef
FArgMax(s) == CHOOSE n \in Nat : TRUE \* first position of the maximum
FCumSum(s) == s
Force(s) == s                    \* evaluates every element of a sequence once
VAdd(s, t) == s
VSub(s, t) == s
VScale(c, s) == s
MAdd(a, b) == a
MScale(c, a) == a
MOuter(s, t) == <<s, t>>
MVec(a, s) == s                  \* matrix times vector
MInv(a) == a
MDet(a) == Undef
MLogDet(a) == Undef              \* log |det|
MTraceMul(a, b) == Undef         \* trace of a * b
MQuad(s, a) == Undef             \* s' a s
MPosDef(a) == a = a              \* symmetric positive definite
VClose(s, t, rtol, atol) == s = t
MClose(a, b, rtol, atol) == a = b
MSub(a, idx) == a                \* principal submatrix, idx 1-based positions
SortS(s) == s
MChol(a) == a                    \* lower Cholesky factor
MMul(a, b) == a
MT(a) == a                       \* transpose
VFwd(a, s) == s                  \* solves a x = s, a lower triangular
MVNS(x, mu, sigma) == Undef      \* log density of N(mu, sigma) at x (see Dist!MvnLogPdf)
=============================================================================
