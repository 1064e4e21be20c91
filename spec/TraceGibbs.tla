------------------------------ MODULE TraceGibbs ------------------------------
(***************************************************************************)
(* Checks recorded Gibbs fits and the answers computed from them.           *)
(* Scenario: Y data, pr prior given by the user, kind/par weighting model,  *)
(* evs events:                                                              *)
(*   fit    a fit of the object under test: digests of what it saved, and   *)
(*          digests of every sweep of a reference chain of the same seed    *)
(*   init, sweep  the states of the reference chain                         *)
(*   end    closes the statistical tests of the chain                       *)
(*   map    the MAP of the object under test after a fit                    *)
(*   saved  saved states and MAP, for the queries that follow               *)
(*   dens, aff, cons, clus  queries;  plot the figure of the pair plot      *)
(*   post   averages over independent chains on three observations          *)
(***************************************************************************)
EXTENDS Posterior, Gibbs, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop  == IOEnv.PROP
VARIABLES t, l, st
vars == <<t, l, st>>
S == Trace[t]
Y == S.Y
NObs == Len(Y)
Dim  == Len(Y[1])
Kind == S.kind
Par  == S.par
NAcc == 30
Acc0 == [k \in 1..NAcc |-> <<"0.0", "0.0">>]
\* g: abstract sampler; refs: position in the chain -> what the reference chain holds
\* acc: sums and variances of the test statistics; cands: digests and log-likelihoods
\* regular: no degenerate covariance so far; sv: event with the saved states
Init == /\ t \in 1..Len(Trace) /\ l = 1
        /\ st = [g |-> GInit, refs |-> <<>>, acc |-> Acc0, cands |-> <<>>, regular |-> TRUE, sv |-> 0,
                 y |-> 0]
\* G09 (the target of the chains) includes the laws of every sweep
Want(p) == Prop \in {p, "ALL"} \/ (Prop = "G09" /\ p \in {"G02", "G03"})
Chk(p, name, cond) == IF ~Want(p) THEN {}
                      ELSE IF cond THEN {} ELSE {<<IF Prop = "G09" THEN Prop ELSE p, name>>}
Prior == PriorOf(S.pr, Y)
Finite == Kind \in FiniteKinds

(* ---- G01: the schedule --------------------------------------------------- *)
Distinct(d) == Cardinality({d[i] : i \in DOMAIN d})
Same01(d, i, j) == IF d[i] = d[j] THEN 1 ELSE 0
FitOK(e, g2, refs2) ==
   LET sv == g2.saved
       ref(k) == refs2[sv[k][2]]        \* what the k-th saved state should be
       n == Len(e.ref[1].d)
   IN Chk("G01", "sweeps-saved", /\ Len(e.saved) = Len(sv)
                                 /\ \A k \in DOMAIN sv : k \in DOMAIN e.saved => e.saved[k] = ref(k).dig)
      \cup (IF Len(e.saved) # Len(sv) THEN {} ELSE
            Chk("G01", "total-saved", e.tot = Len(sv))
            \cup Chk("G01", "n-groups", /\ Len(e.ng) = Len(sv)
                                        /\ \A k \in DOMAIN sv : e.ng[k] = Distinct(ref(k).d))
            \cup Chk("G01", "n-atoms", /\ Len(e.na) = Len(sv)
                                       /\ \A k \in DOMAIN sv : e.na[k] = ref(k).nth)
            \cup Chk("G01", "affinity-counts",
                     \A i \in 1..n : \A j \in 1..n :
                        FClose(e.aff[i][j], FDiv(ISum([k \in DOMAIN sv |-> Same01(ref(k).d, i, j)]), Len(sv)),
                               0, "1e-9")))

(* ---- G02: sweeps ----------------------------------------------------------- *)
WInd(kind) == kind \in {"dp", "py", "geo", "bib", "bid", "bb", "bn"}
Explains(e, v) == {k \in DOMAIN e.beta :
   FClose(e.beta[k][3], v, "1e-8", "1e-9") \/ FClose(FSub(1, e.beta[k][3]), v, "1e-9", "1e-10")}
Oriented(b, v) == IF FClose(b[3], v, "1e-8", "1e-9") THEN b ELSE <<b[2], b[1], b[3]>>
WeightsLaw(e, w0, w, d) ==
   LET g == DMax(d)
       \* the first sticks, and all those of assigned groups
       clip(x) == SubSeq(Sticks(x), 1, LET m == IF g + 2 > 16 THEN g + 2 ELSE 16 IN IF Len(x) < m THEN Len(x) ELSE m)
       v == clip(w)
       r == Left(w)
       \* urn of beta-in-dirichlet: the value of stick i was drawn for the positions that shared
       \* a value (before the sweep or after it), or for one of them alone
       vs == <<v, clip(w0)>>
       decided == /\ g + 1 <= Len(v)
                  /\ \A k \in 1..(g+1) : FLt("1e-4", r[k]) /\ FLt("1e-4", Left(w0)[k])
       law(dr, T) == ParOK(dr, <<FNum(1 + ISumSet(T, [k \in T |-> NAt(d, k)])),
                                 FAdd(Par.alpha, ISumSet(T, [k \in T |-> NBeyond(d, k)]))>>)
       tied(x, j) == {k \in 0..g : FClose(x[k+1], x[j+1], "1e-7", "1e-9")}
       urn(i, dr) == decided => \/ tied(v, i - 1) = {} /\ law(dr, {})
                                \/ \E j \in tied(v, i - 1) : law(dr, {j})
                                \/ \E q \in {1, 2} : \E j \in 0..g : law(dr, tied(vs[q], j))
   IN
   CASE Kind = "eq" -> /\ Len(w) = Par.n /\ \A i \in DOMAIN w : FClose(w[i], FDiv(1, Par.n), "1e-12", 0)
     [] Kind = "fr" -> \A i \in DOMAIN w : FClose(w[i], FDiv(NAt(d, i-1), Len(d)), "1e-12", 0)
     [] Kind = "dir" ->
          LET al == [i \in DOMAIN Par.dalpha |-> FAdd(Par.dalpha[i], NAt(d, i - 1))]
              X == {k \in DOMAIN e.dir : VClose(e.dir[k][2], w, "1e-9", "1e-12")}
          IN Len(w) = Len(al) /\ (X = {} \/ \E k \in X : VClose(e.dir[k][1], al, "1e-9", "1e-12"))
     [] OTHER ->
          /\ \A i \in DOMAIN v : (i <= 16 /\ FLt("1e-4", r[i]) /\ (~OneStick(Kind, Par) \/ i = 1)) =>
                LET X == Explains(e, v[i]) IN
                X = {} \/ \E k \in X : LET dr == Oriented(e.beta[k], v[i]) IN
                                        IF Kind = "bid" THEN urn(i, dr) ELSE DrawOK(Kind, Par, d, e.p, v, i, dr)
          /\ OneStick(Kind, Par) => \A i \in DOMAIN v : FLt("1e-5", r[i]) => FClose(v[i], v[1], "1e-7", "1e-9")
(* the common parameter of beta-in-beta in a sweep: p0 before it, the sticks of a.w given *)
HasP == Kind = "bib" /\ ~OneStick(Kind, Par) /\ FLt(0, Par.x)
CommonOK(e, a, p0) ==
   LET v == Sticks(a.w)
       g == SeqOf(100, LAMBDA i : FDiv(FSub(i, "0.5"), 100))
       best == FMaxS([i \in 1..100 |-> PLogLik(Par, g[i], v)])
   IN CASE S.pm = "static" -> e.p = p0
        [] S.pm = "max-likelihood" ->
             (\A j \in DOMAIN v : FLt("1e-6", Left(a.w)[j]) /\ FLt("1e-6", v[j]) /\ FLt(v[j], "0.999999")) =>
                FLe(best, FAdd(PLogLik(Par, e.p, v), "0.05"))
        [] OTHER -> FLe(0, e.p) /\ FLe(e.p, 1)
PStats(p, d) ==
   IF ~(HasP /\ S.pm \in {"geometric", "independent"}) THEN <<>>
   ELSE LET pl == PLaw(Par, d, S.pm)  z == FSub(FBetaCdf(p, pl[1], pl[2]), "0.5")
        IN << <<25, z, FDiv(1, 12)>>, <<26, FSub(FMul(z, z), FDiv(1, 12)), FDiv(1, 180)>> >>
SweepOK(e, a, b) ==      \* from state a to state b
   LET w == b.w  K == Len(w)  u == b.u  ok(i) == a.d[i] >= 0 /\ a.d[i] < K IN
   Chk("G02", "shape", /\ Len(u) = NObs /\ Len(b.d) = NObs /\ K >= 1
                       /\ \A i \in 1..NObs : ok(i) /\ b.d[i] >= 0 /\ b.d[i] < K)
   \cup (IF ~(Len(u) = NObs /\ Len(b.d) = NObs /\ \A i \in 1..NObs : ok(i) /\ b.d[i] >= 0 /\ b.d[i] < K) THEN {} ELSE
     Chk("G02", "slices", \A i \in 1..NObs : FLt(0, u[i]) /\ FLe(u[i], FAdd(w[a.d[i] + 1], "3e-16")))
     \cup Chk("G02", "mass", FLe(FSub(FSub(1, FMinS(u)), "1e-12"), FSum(w)))
     \cup Chk("G02", "weights", /\ \A j \in 1..K : FFin(w[j]) /\ FLe(0, w[j])
                                /\ FLe(FSum(w), "1.000000001"))
     \cup Chk("G02", "atoms", Len(b.th) >= K /\ \A j \in 1..K : b.th[j] # <<>>)
     \cup Chk("G02", "above-slice", \A i \in 1..NObs : FLt(u[i], w[b.d[i] + 1]))
     \cup Chk("G02", "weights-law", WeightsLaw(e, a.w, w, a.d))
     \cup Chk("G02", "common-parameter", HasP => CommonOK(e, a, S.evs[l - 1].p)))

(* ---- G03: atoms ---------------------------------------------------------------- *)
AtomLaw(a, j) ==   \* the law of atom j (0,1,..) in the sweep that leaves state a
   LET Yj == FilterIdx(Y, a.d, j) IN
   IF Yj # <<>> THEN NIWPost(Prior, Yj)
   ELSE [m |-> Prior.m, l |-> FNum(Prior.l), psi |-> Prior.psi, nu |-> FNum(Prior.nu)]
HasAtom(s, j) == j + 1 <= Len(s.th) /\ s.th[j + 1] # <<>>
AtomsOK(e, a, b) ==
   LET J == {j \in 0..(Len(b.th) - 1) : HasAtom(b, j)}
       occ == {a.d[i] : i \in DOMAIN a.d}
       drawn == {j \in J : j \in occ \/ ~HasAtom(a, j)}
       rs(j) == {k \in DOMAIN e.niws : e.niws[k][3] = b.th[j+1][2]}
       rm(j) == {k \in DOMAIN e.niwm : e.niwm[k][3] = b.th[j+1][1]}
       law == [j \in drawn |-> AtomLaw(a, j)]
   IN Chk("G03", "positive-definite", \A j \in J : MPosDef(b.th[j+1][2]))
      \cup Chk("G03", "unoccupied-kept", \A j \in J \ drawn : b.th[j+1] = a.th[j+1])
      \cup Chk("G03", "redrawn", \A j \in drawn : HasAtom(a, j) => (b.th[j+1][1] # a.th[j+1][1]
                                                                    /\ b.th[j+1][2] # a.th[j+1][2]))
      \cup Chk("G03", "covariance-parameters",
               \A j \in drawn : rs(j) = {} \/ \E k \in rs(j) :
                  /\ FClose(e.niws[k][1], law[j].nu, "1e-9", "1e-9")
                  /\ MClose(e.niws[k][2], law[j].psi, "1e-7", "1e-12"))
      \cup Chk("G03", "mean-parameters",
               \A j \in drawn : rm(j) = {} \/ \E k \in rm(j) :
                  /\ VClose(e.niwm[k][1], law[j].m, "1e-7", "1e-9")
                  /\ MClose(e.niwm[k][2], MScale(FDiv(1, law[j].l), b.th[j+1][2]), "1e-7", "1e-13"))

(* ---- statistics of a chain -------------------------------------------------- *)
(* statistics: 1 slice ratio  2 its square  3 log density  4 log weight  5 index   *)
(* 6 staying  7 stick transform  8 its square  9..14 atoms of occupied components  *)
(* 15..20 atoms from the prior   21..24 two observations (or sticks) at a time   *)
(* 25, 26 transform of the common parameter of beta-in-beta, and its square         *)
(* 27..30 slice ratios and stick transforms in the first and last twentieth         *)
Put(acc, k, x, v) == [acc EXCEPT ![k] = <<FAdd(@[1], x), FAdd(@[2], v)>>]
PutAll(acc, s) == FoldLeft(LAMBDA c, x : Put(c, x[1], x[2], x[3]), acc, s)

\* how many of some uniforms (less 1/2) are in the first and in the last twentieth
Ends(z, k) ==
   LET n == Len(z) IN
   << <<k, FSub(Cardinality({i \in 1..n : FLt(z[i], "-0.45")}), FMul(n, "0.05")), FMul(n, "0.0475")>>,
      <<k + 1, FSub(Cardinality({i \in 1..n : FLt("0.45", z[i])}), FMul(n, "0.05")), FMul(n, "0.0475")>> >>
SliceStats(a, b) ==
   LET z == SeqOf(NObs, LAMBDA i : FSub(FDiv(b.u[i], b.w[a.d[i] + 1]), "0.5"))
   IN << <<1, FSum(z), FDiv(NObs, 12)>>, <<2, FSub(FDot(z, z), FDiv(NObs, 12)), FDiv(NObs, 180)>>,
         <<23, FDot(SubSeq(z, 1, NObs - 1), SubSeq(z, 2, NObs)), FDiv(NObs - 1, 144)>> >>
      \o Ends(z, 27)
AllocStats(a, b, i, lps) ==
   LET A == {j \in DOMAIN b.w : FLt(b.u[i], b.w[j])}
       lp == SeqOf(Len(b.w), LAMBDA j : IF j \in A THEN lps[j] ELSE "-inf")
       tot == FLogSumExp(lp)
       p == SeqOf(Len(b.w), LAMBDA j : FExp(FSub(lp[j], tot)))
       mx == FMaxS(lp)
       one(k, f(_)) == \* centered value and variance of f at the drawn component
          LET x == SeqOf(Len(b.w), LAMBDA j : IF j \in A THEN f(j) ELSE "0.0")
              m == FDot(p, x)
              q == SeqOf(Len(b.w), LAMBDA j : FMul(x[j], x[j]))
          IN <<k, FSub(x[b.d[i] + 1], m), FMax(0, FSub(FDot(p, q), FMul(m, m)))>>
   IN IF Cardinality(A) < 2 THEN <<>>
      ELSE << one(3, LAMBDA j : FMax(FSub(lp[j], mx), "-20.0")),
              one(4, LAMBDA j : FMax(FLog(b.w[j]), "-20.0")),
              one(5, LAMBDA j : FMin(j, 10)),
              one(6, LAMBDA j : IF j = a.d[i] + 1 THEN "1.0" ELSE "0.0") >>
StickStats(w, d) ==
   LET v == Sticks(w)  r == Left(w)
       n == CASE OneStick(Kind, Par) -> 1
              [] Kind = "dir" -> Len(w) - 1
              [] Kind \in {"dp", "py"} -> Len(w)
              [] OTHER -> 0
       lawd(j) == LET al == [i \in DOMAIN Par.dalpha |-> FAdd(Par.dalpha[i], NAt(d, i - 1))]
                  IN <<al[j], FSum(SubSeq(al, j + 1, Len(al)))>>
       law(j) == IF Kind = "dir" THEN lawd(j) ELSE StickLaw(Kind, Par, d, "0.0", j - 1)
       J == {j \in 1..n : FLt("1e-6", r[j])}      \* decided by the sticks before j
       z == [j \in 1..n |-> IF j \in J THEN FSub(FBetaCdf(v[j], law(j)[1], law(j)[2]), "0.5") ELSE "0.0"]
       m == Cardinality(J)
       JS == SetToSortSeq(J, LAMBDA x, y : x < y)
       z1 == SubSeq(z, 1, n - 1)  z2 == SubSeq(z, 2, n)
       m2 == Cardinality({j \in J : j > 1 /\ j - 1 \in J})
   IN IF n = 0 THEN <<>>
      ELSE << <<7, FSum(z), FDiv(m, 12)>>, <<8, FSub(FDot(z, z), FDiv(m, 12)), FDiv(m, 180)>>,
           <<24, IF n < 2 THEN "0.0" ELSE FDot(z1, z2), FDiv(m2, 144)>> >>
           \o Ends(SeqOf(m, LAMBDA i : z[JS[i]]), 29)
AtomStats(a, b, j, k0) ==
   LET p == AtomLaw(a, j)
       mu == b.th[j+1][1]  sg == b.th[j+1][2]
       D == Dim
       L == MChol(p.psi)
       W == MMul(MT(L), MMul(MInv(sg), L))                 \* Wishart(nu, I)
       A == MChol(sg)
       z == VScale(FSqrt(p.l), VFwd(A, VSub(mu, p.m)))     \* N(0, I)
       c0 == VFwd(L, VSub(IF j \in {a.d[i] : i \in DOMAIN a.d} THEN MeanOf(FilterIdx(Y, a.d, j)) ELSE p.m,
                          Prior.m))
       n0 == FSqrt(FDot(c0, c0))
       c == IF FLt("1e-9", n0) THEN VScale(FDiv(1, n0), c0) ELSE VScale(0, c0)
       q == FDot(z, z)
       tr == FSum([i \in 1..D |-> W[i][i]])
   IN << <<k0, FSum(z), FNum(D)>>,
         <<k0 + 1, FDot(c, z), FDot(c, c)>>,
         <<k0 + 2, FSub(q, D), FNum(2 * D)>>,
         <<k0 + 3, FSub(tr, FMul(p.nu, D)), FMul(p.nu, 2 * D)>>,
         <<k0 + 4, FSub(W[1][1], p.nu), FMul(2, p.nu)>>,
         <<k0 + 5, IF D > 1 THEN W[1][2] ELSE "0.0", IF D > 1 THEN p.nu ELSE "0.0">> >>
Flat(s) == FlattenSeq(s)
SetSeq(X) == SetToSortSeq(X, LAMBDA x, y : x < y)
SweepStats(acc, a, b, p) ==
   LET K == Len(b.w)
       occ == {a.d[i] : i \in DOMAIN a.d}
       good(j) == HasAtom(b, j) /\ RegLaw(b.th[j+1][2])
       s1 == IF ~Want("G02") THEN <<>> ELSE
             SliceStats(a, b) \o StickStats(b.w, a.d) \o PStats(p, a.d)
             \o (IF ~\A j \in 0..(K-1) : good(j) THEN <<>>
                 ELSE LET A == Force([i \in 1..NObs |->
                                  AllocStats(a, b, i, SeqOf(K, LAMBDA j : LogN(Y[i], b.th[j])))])
                          pair(i, q, k) == IF A[i] = <<>> \/ A[i+1] = <<>> THEN <<>>
                             ELSE << <<k, FMul(A[i][q][2], A[i+1][q][2]), FMul(A[i][q][3], A[i+1][q][3])>> >>
                      IN Flat(A) \o Flat([i \in 1..(NObs - 1) |-> pair(i, 1, 21) \o pair(i, 3, 22)]))
       \* decided before the draw: the choice of what is judged must not look at the draw
       drawn(j) == RegLaw(AtomLaw(a, j).psi) /\ HasAtom(b, j) /\ MPosDef(b.th[j+1][2])
       s2 == IF ~Want("G03") THEN <<>> ELSE
             LET O == SetSeq({j \in occ : drawn(j)}) IN Flat([i \in 1..Len(O) |-> AtomStats(a, b, O[i], 9)])
             \o LET N == SetSeq({j \in 0..(K-1) : j \notin occ /\ ~HasAtom(a, j) /\ drawn(j)})
                IN Flat([i \in 1..Len(N) |-> AtomStats(a, b, N[i], 15)])
   IN PutAll(acc, s1 \o s2)
EndOK(acc) ==
   LET zok(k) == FLe(FAbs(acc[k][1]), FAdd(FMul("6.5", FSqrt(acc[k][2])), 8)) IN
   Chk("G02", "slice-distribution", zok(1) /\ zok(2) /\ zok(27) /\ zok(28))
   \cup Chk("G02", "allocation-distribution", zok(3) /\ zok(4) /\ zok(5) /\ zok(6))
   \cup Chk("G02", "allocation-independence", zok(21) /\ zok(22))
   \cup Chk("G02", "slice-independence", zok(23))
   \cup Chk("G02", "weights-independence", zok(24))
   \cup Chk("G02", "weights-distribution", zok(7) /\ zok(8) /\ zok(29) /\ zok(30))
   \cup Chk("G02", "common-parameter-distribution", zok(25) /\ zok(26))
   \cup Chk("G03", "mean-distribution", zok(9) /\ zok(10) /\ zok(11))
   \cup Chk("G03", "covariance-distribution", zok(12) /\ zok(13) /\ zok(14))
   \cup Chk("G03", "prior-mean-distribution", zok(15) /\ zok(16) /\ zok(17))
   \cup Chk("G03", "prior-covariance-distribution", zok(18) /\ zok(19) /\ zok(20))

(* ---- G04: the MAP ------------------------------------------------------------ *)
RegState(s) == /\ \A i \in DOMAIN s.d : s.d[i] + 1 <= Len(s.w) /\ HasAtom(s, s.d[i]) /\ RegLaw(s.th[s.d[i] + 1][2])
               /\ \A i \in DOMAIN s.d : FLt(0, s.w[s.d[i] + 1])
MapOK(e) ==
   IF ~st.regular \/ st.cands = <<>> THEN {}
   ELSE LET best == FMaxS([k \in DOMAIN st.cands |-> st.cands[k][2]])
            tol == FAdd("1e-7", FMul("1e-8", FAbs(best))) IN
        Chk("G04", "value", FLe(FAbs(FSub(e.ll, best)), tol))
        \cup Chk("G04", "state", \E k \in DOMAIN st.cands :
                 st.cands[k][1] = e.dig /\ FLe(FSub(best, tol), st.cands[k][2]))

(* ---- G05, G06, G07: queries ------------------------------------------------- *)
Saved == S.evs[st.sv].sts
Map   == S.evs[st.sv].map
QY(e) == IF e.pts = <<>> THEN Y ELSE e.pts
RegAll(sts) == \A k \in DOMAIN sts : RegTh(sts[k].th, 0..(Len(sts[k].w) - 1))
Plus1(s) == [i \in DOMAIN s |-> s[i] + 1]
DensOK(e) ==
   LET all == Saved
       n == Len(all)
       use == IF e.which = "map" THEN <<Map>>
              ELSE IF e.periods < 0 \/ e.periods >= n THEN all ELSE SubSeq(all, n - e.periods + 1, n)
       dim == Plus1(e.dim)
       \* points come in the dimensions asked, the fitted data in all of them
       X == IF e.pts # <<>> THEN e.pts
            ELSE [i \in 1..NObs |-> IF dim = <<>> THEN Y[i] ELSE [k \in 1..Len(dim) |-> Y[i][dim[k]]]]
       val(x) == FDiv(FSum([k \in DOMAIN use |-> MixDens(use[k], x, dim, e.comp)]), Len(use))
       close(a, b) == FClose(a, b, "1e-6", "1e-280")
   IN Chk("G05", "shape", Len(e.out) = Len(X))
      \cup Chk("G05", "finite", \A i \in DOMAIN e.out : FFin(e.out[i]) /\ FLe(0, e.out[i]))
      \cup (IF Len(e.out) # Len(X) \/ ~RegAll(use) THEN {} ELSE
            Chk("G05", "density " \o e.which, \A i \in DOMAIN X : close(e.out[i], val(X[i])))
            \cup Chk("G05", "alone", e.one = <<>> \/ \A i \in DOMAIN X : FClose(e.one[i], e.out[i], "1e-9", "1e-300")))
AffBasics(e) ==
   LET n == Len(e.mat) IN
   Chk("G06", "matrix", /\ n = Len(QY(e))
                        /\ \A i \in 1..n : /\ Len(e.mat[i]) = n
                                           /\ FClose(e.mat[i][i], 1, 0, "1e-9")
                                           /\ \A j \in 1..n : /\ FClose(e.mat[i][j], e.mat[j][i], 0, "1e-9")
                                                              /\ FLe("-1e-9", e.mat[i][j])
                                                              /\ FLe(e.mat[i][j], "1.000000001"))
AffOK(e) ==
   LET n == Len(e.mat)
       sts == Saved
       N == Len(sts)
       lp == SeqOf(N, LAMBDA k : SeqOf(n, LAMBDA i : CompLog(sts[k], e.pts[i])))
       best == SeqOf(N, LAMBDA k : SeqOf(n, LAMBDA i : FArgMax(lp[k][i])))
       clear == \A k \in 1..N : \A i \in 1..n : FLt("1e-5", Margin(lp[k][i]))
       frac(c) == FDiv(ISum([k \in 1..N |-> c[k]]), N)
   IN IF Len(e.mat) # Len(QY(e)) THEN AffBasics(e) ELSE
      AffBasics(e) \cup
      (IF e.pts = <<>> THEN
         Chk("G06", "fitted", \A i \in 1..n : \A j \in 1..i :
              FClose(e.mat[i][j], frac([k \in 1..N |-> Same01(sts[k].d, i, j)]), 0, "1e-9"))
       ELSE IF ~RegAll(sts) \/ ~clear THEN {}
       ELSE Chk("G06", "new", \A i \in 1..n : \A j \in 1..i :
              FClose(e.mat[i][j], frac([k \in 1..N |-> Same01(best[k], i, j)]), 0, "1e-9")))
ConsOK(e) ==
   Chk("G06", "consensus", /\ Len(e.lab) = Len(QY(e))
                           /\ \A i \in DOMAIN e.lab : e.lab[i] >= 0 /\ e.lab[i] < e.n)
ClusOK(e) ==
   LET X == QY(e)  n == Len(X)
       lp == SeqOf(n, LAMBDA i : CompLog(Map, X[i]))
       best == SeqOf(n, LAMBDA i : FArgMax(lp[i]))
       labs == {e.lab[i] : i \in DOMAIN e.lab}
       K == Cardinality(labs)
       margin == SeqOf(n, LAMBDA i : Margin(lp[i]))
       \* two observations are compared when both have a clear winner
       clear(i) == FLt("1e-5", margin[i])
   IN Chk("G07", "labels", Len(e.lab) = n /\ labs = 0..(K - 1))
      \cup Chk("G07", "uncertainty-range", /\ Len(e.unc) = n
                  /\ \A i \in DOMAIN e.unc : FFin(e.unc[i]) /\ FLe("-1e-12", e.unc[i]) /\ FLt(e.unc[i], 1))
      \cup Chk("G07", "plain", e.plain = e.lab)
      \cup (IF ~(Len(e.lab) = n /\ Len(e.unc) = n) \/ e.extreme \/ ~RegAll(<<Map>>) THEN {} ELSE
            Chk("G07", "partition", \A i \in 1..n : \A j \in 1..i : (clear(i) /\ clear(j)) =>
                   ((e.lab[i] = e.lab[j]) <=> (best[i] = best[j])))
            \cup Chk("G07", "uncertainty", \A i \in 1..n :
                   FClose(e.unc[i], FSub(1, FExp(FSub(FMaxS(lp[i]), FLogSumExp(lp[i])))), "1e-5", "1e-6")))
      \cup (IF ~(Len(e.lab) = n /\ Len(e.unc) = n) \/ e.extreme THEN {} ELSE    \* out there one rounding decides
            Chk("G07", "alone", /\ Len(e.one) = n
                                /\ \A i \in 1..n : /\ e.one[i][1] = "0"
                                                   /\ FClose(e.one[i][2], e.unc[i], "1e-6", "1e-7"))
            \cup Chk("G07", "subset", \A i, j \in DOMAIN e.sub :
                   (e.sublab[i] = e.sublab[j]) <=> (e.lab[e.sub[i] + 1] = e.lab[e.sub[j] + 1])))

(* ---- G08: the pair plot ------------------------------------------------------ *)
(* panels: row r, column c (0-based), axis names, and what is drawn:          *)
(*   diagonal: total lines <<x, y>>, fills <<colour, x, y>>                   *)
(*   others: sc points <<x, y, colours>>, ell lines <<colour, x, y>>          *)
Black == "0.0000,0.0000,0.0000"
PlotOK(e) ==
   LET P == e.panels
       D == Len(Y[1])
       lp == SeqOf(NObs, LAMBDA i : CompLog(Map, Y[i]))
       best == SeqOf(NObs, LAMBDA i : FArgMax(lp[i]))
       clear == \A i \in 1..NObs : FLt("1e-5", Margin(lp[i]))
       comps == {best[i] : i \in 1..NObs}
       Col(k) == [i \in 1..NObs |-> Y[i][k]]
       at(r, c) == CHOOSE q \in DOMAIN P : P[q].r = r /\ P[q].c = c
       dens(k, xs, comp) == SeqOf(Len(xs), LAMBDA i : MixDens(Map, <<xs[i]>>, <<k>>, comp))
       near(ys, zs) == VClose(ys, zs, "1e-6", FMul("1e-9", FMaxS(zs)))
       diag(k) == P[at(k - 1, k - 1)]
       few == Cardinality(comps) <= 10
       grid == \A r, c \in 0..(D - 1) : \E q \in DOMAIN P : P[q].r = r /\ P[q].c = c
       \* colour of a cluster in a panel: that of its points
       colour(q, j) == q.sc[1][3][CHOOSE i \in 1..NObs : best[i] = j]
       ref == P[at(0, 1)]
       FillsOK(k) ==
          LET f == diag(k).fills
              X == {q \in DOMAIN f : f[q][1] # Black}
              B == DOMAIN f \ X
              is(q, j) == near(f[q][3], dens(k, f[q][2], j - 1))
              others == (1..Len(Map.w)) \ comps
              xs == diag(k).total[1][1]
          IN /\ Cardinality(X) = Cardinality(comps)
             /\ \A j \in comps : \E q \in X : is(q, j) /\ (D > 1 => f[q][1] = colour(ref, j))
             /\ few => Cardinality({f[q][1] : q \in X}) = Cardinality(X)
             /\ \A q \in B : \E j \in others : is(q, j)
             /\ \A j \in others : FLe(FMaxS(dens(k, xs, j - 1)), "0.01") \/ \E q \in B : is(q, j)
       PointsOK(q) ==
          /\ Len(q.sc) = 1
          /\ VClose(q.sc[1][1], Col(q.c + 1), "1e-12", 0)
          /\ VClose(q.sc[1][2], Col(q.r + 1), "1e-12", 0)
          /\ \A i, k \in 1..NObs : best[i] = best[k] => q.sc[1][3][i] = q.sc[1][3][k]
          /\ few => \A i, k \in 1..NObs : q.sc[1][3][i] = q.sc[1][3][k] => best[i] = best[k]
          /\ \A j \in comps : colour(q, j) = colour(ref, j)
       \* the 95% contour of the component in the two dimensions
       Contour(q, j, x, y) ==
          LET idx == <<q.c + 1, q.r + 1>>
              a == MargTh(Map.th[j], idx)
              iv == MInv(a[2])
              s(k) == FSqrt(FMul("5.991464547107979", a[2][k][k]))
              reach(z, k) == /\ FLe(FAdd(a[1][k], FMul("0.98", s(k))), FMaxS(z))
                             /\ FLe(FMinS(z), FSub(a[1][k], FMul("0.98", s(k))))
          IN /\ \A i \in DOMAIN x : FClose(MQuad(VSub(<<x[i], y[i]>>, a[1]), iv), "5.991464547107979", "1e-5", 0)
             /\ reach(x, 1) /\ reach(y, 2)
       EllOK(q) ==
          /\ Len(q.ell) = Cardinality(comps)
          /\ \A j \in comps : \E k \in DOMAIN q.ell : /\ q.ell[k][1] = colour(q, j)
                                                     /\ Contour(q, j, q.ell[k][2], q.ell[k][3])
       off == {q \in DOMAIN P : P[q].r # P[q].c}
   IN Chk("G08", "not-fitted", e.before = "NotFittedError")
      \cup Chk("G08", "kept", e.kept[1] = e.kept[2])
      \cup Chk("G08", "panels", e.figs = 1 /\ Len(P) = D * D /\ grid)
      \cup (IF ~(Len(P) = D * D /\ grid) THEN {} ELSE
           Chk("G08", "names", \A k \in 1..D : /\ P[at(D - 1, k - 1)].xl = e.names[k]
                                                /\ P[at(k - 1, 0)].yl = e.names[k])
           \cup Chk("G08", "range", \A k \in 1..D : /\ Len(diag(k).total) = 1
                                                     /\ FLe(diag(k).ends[1], FMinS(Col(k)))
                                                     /\ FLe(FMaxS(Col(k)), diag(k).ends[2])
                                                     /\ LET r == FDiv(FSub(FMaxS(Col(k)), FMinS(Col(k))), 4)
                                                            tol == FMul("1e-6", r)
                                                        IN /\ FClose(FSub(FMinS(Col(k)), diag(k).ends[1]), r, 0, tol)
                                                           /\ FClose(FSub(diag(k).ends[2], FMaxS(Col(k))), r, 0, tol))
           \cup (IF ~(RegAll(<<Map>>) /\ clear /\ \A k \in 1..D : Len(diag(k).total) = 1) THEN {} ELSE
                Chk("G08", "density", \A k \in 1..D :
                    near(diag(k).total[1][2], dens(k, diag(k).total[1][1], -1)))
                \cup Chk("G08", "points", \A q \in off : PointsOK(P[q]))
                \cup (IF ~\A q \in off : Len(P[q].sc) = 1 /\ Len(P[q].sc[1][3]) = NObs THEN {} ELSE
                     Chk("G08", "components", \A k \in 1..D : FillsOK(k))
                     \cup Chk("G08", "contours", \A q \in off : EllOK(P[q])))))

(* ---- G09: the target of the chains --------------------------------------------- *)
(* averages of every chain: 1..5 the partitions of three observations, 6 weight of  *)
(* the group of the first, 7 whether it is group 0, 8, 9 its mean and variance in   *)
(* the first dimension, 10 its weighted density at x0; dens: expected density at x0 *)
Cs == << <<1, 1, 1>>, <<1, 1, 2>>, <<1, 2, 1>>, <<1, 2, 2>>, <<1, 2, 3>> >>
PostOK(e) ==
   LET E(sz) == PartE(Kind, Par, sz)
       up(sz) == [sz EXCEPT ![1] = @ + 1]
       pe == SeqOf(5, LAMBDA k : E(Sizes(Cs[k])))
       lk == SeqOf(5, LAMBDA k : FMul(pe[k], PartLik(Prior, Y, Cs[k])))
       p == SeqOf(5, LAMBDA k : FDiv(lk[k], FSum(lk)))
       po == Force([k \in 1..5 |-> NIWPost(Prior, FilterIdx(Y, Cs[k], 1))])
       w == SeqOf(5, LAMBDA k : IF FEq(pe[k], 0) THEN "0.0" ELSE FDiv(E(up(Sizes(Cs[k]))), pe[k]))
       f == SeqOf(5, LAMBDA k : IF FEq(pe[k], 0) THEN "0.0" ELSE FDiv(PartF(Kind, Par, Sizes(Cs[k])), pe[k]))
       \* expected density at x0 given the partition (finite models): occupied blocks and a new one
       blk(k, b) == LET sz == Sizes(Cs[k]) IN FMul(FDiv(E([sz EXCEPT ![b] = @ + 1]), pe[k]),
                                                  PredNIW(NIWPost(Prior, FilterIdx(Y, Cs[k], b)), e.x0))
       dn(k) == IF FEq(pe[k], 0) THEN "0.0"
                ELSE FAdd(FSum([b \in 1..BlocksOf(Cs[k]) |-> blk(k, b)]),
                          FMul(FDiv(E(Append(Sizes(Cs[k]), 1)), pe[k]), PredNIW(Prior, e.x0)))
       ex == p \o << FDot(p, w), FDot(p, f),
                     FDot(p, SeqOf(5, LAMBDA k : po[k].m[1])),
                     FDot(p, SeqOf(5, LAMBDA k : FDiv(po[k].psi[1][1], FSub(po[k].nu, Dim + 1)))),
                     FDot(p, SeqOf(5, LAMBDA k : FMul(w[k], PredNIW(po[k], e.x0)))) >>
       M == Len(e.chains)
       z(x, v) ==      \* distance of the average of x from v, in standard errors
          LET n == Len(x)  m == FDiv(FSum(x), n)
              s2 == FDiv(FSum([i \in 1..n |-> LET q == FSub(x[i], m) IN FMul(q, q)]), n - 1)
          IN FDiv(FSub(m, v), FAdd(FSqrt(FDiv(s2, n)), FMul("1e-3", FMax("0.1", FAbs(v)))))
       zs == SeqOf(10, LAMBDA q : z([i \in 1..M |-> e.chains[i][q]], ex[q]))
       zd == IF e.dens = <<>> THEN "0.0" ELSE z(e.dens, FSum([k \in 1..5 |-> FMul(p[k], dn(k))]))
       lim == IF M < 40 THEN "8.0" ELSE "6.5"         \* few chains: heavier tails
       ok(q) == FLe(FAbs(zs[q]), lim)
   IN Chk("G09", "partitions", \A q \in 1..5 : ok(q))
      \cup Chk("G09", "weights", ok(6))
      \cup Chk("G09", "groups", ok(7))
      \cup Chk("G09", "means", ok(8))
      \cup Chk("G09", "covariances", ok(9))
      \cup Chk("G09", "component-density", ok(10))
      \cup Chk("G09", "expected-density", FLe(FAbs(zd), "8.0"))

(* ---- the step ---------------------------------------------------------------- *)
OpProp(op) == CASE op = "fit" -> "G01" [] op \in {"init", "sweep"} -> Prop [] op = "map" -> "G04"
                [] op = "dens" -> "G05" [] op \in {"aff", "cons"} -> "G06" [] op = "clus" -> "G07"
                [] op = "plot" -> "G08" [] op = "post" -> "G09"
                [] OTHER -> Prop
PrevState == S.evs[l - 1].st
Failed(e, g2, refs2, acc2) ==
   IF e.err # "" THEN Chk(OpProp(e.op), "unexpected " \o e.err \o " in " \o e.op, FALSE)
   ELSE CASE e.op = "fit" -> IF Want("G01") THEN FitOK(e, g2, refs2) ELSE {}
          [] e.op = "init" -> Chk("G02", "initial-atoms",
                  Len(e.st.th) >= Len(e.st.w) /\ \A j \in 1..Len(e.st.w) : e.st.th[j] # <<>>)
          [] e.op = "sweep" -> (IF Want("G02") THEN SweepOK(e, PrevState, e.st) ELSE {})
                               \cup (IF Want("G03") THEN AtomsOK(e, PrevState, e.st) ELSE {})
          [] e.op = "end" -> EndOK(acc2)
          [] e.op = "map" -> IF Want("G04") THEN MapOK(e) ELSE {}
          [] e.op = "dens" -> IF Want("G05") THEN DensOK(e) ELSE {}
          [] e.op = "aff" -> IF Want("G06") THEN AffOK(e) ELSE {}
          [] e.op = "cons" -> IF Want("G06") THEN ConsOK(e) ELSE {}
          [] e.op = "clus" -> IF Want("G07") THEN ClusOK(e) ELSE {}
          [] e.op = "plot" -> IF Want("G08") THEN PlotOK(e) ELSE {}
          [] e.op = "post" -> IF Want("G09") THEN PostOK(e) ELSE {}
          [] OTHER -> {}
WellFormed(a, b) == /\ Len(b.u) = NObs /\ Len(b.d) = NObs
                    /\ \A i \in 1..NObs : /\ a.d[i] >= 0 /\ a.d[i] < Len(b.w) /\ b.d[i] >= 0 /\ b.d[i] < Len(b.w)
                                          /\ FLt(b.u[i], b.w[b.d[i] + 1])
Step ==
   /\ l <= Len(S.evs)
   /\ LET e == S.evs[l]
          ok == e.err = ""
          g2 == IF e.op = "fit" /\ ok THEN GFit(st.g, e.warm, e.T, e.B, e.s) ELSE st.g
          refs2 == IF e.op = "fit" /\ ok THEN (IF e.warm THEN st.refs ELSE <<>>) \o e.ref ELSE st.refs
          acc2 == IF e.op = "sweep" /\ ok /\ (Want("G02") \/ Want("G03")) /\ WellFormed(PrevState, e.st)
                  THEN SweepStats(st.acc, PrevState, e.st, e.p) ELSE st.acc
          chain == e.op \in {"init", "sweep"} /\ ok /\ Want("G04")
          reg2 == IF ~chain THEN st.regular
                  ELSE RegState(e.st) /\ (e.op = "init" \/ st.regular)
          c == IF chain /\ reg2 THEN << <<e.dig, StateLL(e.st, Y)>> >> ELSE <<>>
          bad == Failed(e, g2, refs2, acc2)
      IN /\ (bad # {} => PrintT(<<"BAD", t, l, bad>>))
         /\ st' = [st EXCEPT !.g = g2, !.refs = refs2, !.acc = acc2, !.regular = reg2,
                             !.cands = IF chain THEN (IF e.op = "init" THEN c ELSE @ \o c) ELSE @,
                             !.sv = IF e.op = "saved" THEN l ELSE @]
         /\ (l = Len(S.evs) => PrintT(<<"DONE", t>>))
   /\ l' = l + 1 /\ t' = t
Next == Step
Spec == Init /\ [][Next]_vars
=============================================================================
