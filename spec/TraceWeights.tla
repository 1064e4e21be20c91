---------------------------- MODULE TraceWeights ----------------------------
(***************************************************************************)
(* Checks recorded executions of the weighting models.  Each line of the    *)
(* trace file is one scenario: the model, its parameters, and the sequence  *)
(* of operations with what was observed.  Every step computes the set of    *)
(* failing clauses and prints it (BAD); a scenario ends with DONE.          *)
(***************************************************************************)
EXTENDS WeightLaws, WeightProtocol, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop  == IOEnv.PROP

VARIABLES t, l, st
vars == <<t, l, st>>
S == Trace[t]
\* abstract state: protocol state, observed weights, fitted assignments, latents
St0 == [ps |-> PInit, w |-> <<>>, d |-> <<>>, z |-> <<>>, p |-> "nan"]
Init == t \in 1..Len(Trace) /\ l = 1 /\ st = St0

Chk(p, name, cond) == IF Prop \notin {p, "ALL"} THEN {}
                      ELSE IF cond THEN {} ELSE {<<p, name>>}
Kind == S.kind
Par  == S.par
LKind == S.as       \* the kind whose law is to be followed
LPar  == S.aspar
LProp == IF S.special THEN "W06" ELSE IF st.d = <<>> THEN "W04" ELSE "W05"

MutOps  == {"fit", "reset", "random", "complete", "tail"}
Drawing == {"random", "complete", "tail", "assignll"}
ErrProp(op) == CASE op = "tail" -> "W03" [] op \in {"wll", "assignll"} -> "W07"
                 [] op = "rassign" -> "W08" [] OTHER -> Prop

(* ---- W01: the weights are a sub-probability vector -------------------- *)
WeightsOK(e) ==
   LET w == e.w  n == Len(w)  tot == FSum(w) IN
   IF n = 0 THEN Chk("W01", "size", e.size = 0)
   ELSE Chk("W01", "finite", \A i \in 1..n : FFin(w[i]) /\ FLe(0, w[i]))
        \cup Chk("W01", "sum", FLe(tot, "1.000000001"))
        \cup Chk("W01", "finite-sum", Kind \in FiniteKinds => FClose(tot, 1, 0, "1e-9"))
        \cup Chk("W01", "finite-size",
                 CASE Kind = "dir" -> n = Len(Par.dalpha)
                   [] Kind = "eq" -> n = Par.n
                   [] OTHER -> TRUE)
        \cup Chk("W01", "size", e.size = n)
        \cup Chk("W01", "normalized",
                 /\ Len(e.nw) = n
                 /\ \A i \in 1..n : FClose(e.nw[i], FDiv(w[i], tot), "1e-9", "1e-12"))
        \cup Chk("W01", "cumulative",
                 /\ Len(e.cw) = n
                 /\ \A i \in 1..(n-1) : FLe(e.cw[i], FAdd(e.cw[i+1], "1e-12"))
                 /\ FClose(e.cw[n], 1, 0, "1e-9")
                 /\ VClose(e.cw, FCumSum(e.nw), "1e-9", "1e-9"))
RetOK(e) == Chk("W01", "returned", (e.op \in {"random", "complete", "tail"} /\ e.err = "") => e.ret = e.w)

(* ---- W02: append only -------------------------------------------------- *)
Prefix(a, b) == Len(a) <= Len(b) /\ \A i \in 1..Len(a) : FClose(a[i], b[i], "1e-12", "1e-300")
AppendOK(e) ==
   IF e.op \notin {"complete", "tail", "assignll"} \/ Kind \in {"eq", "fr"} THEN {}
   ELSE Chk("W02", "prefix", Prefix(st.w, e.w))
        \cup Chk("W02", "enough", (e.op = "complete" /\ Kind \in StickKinds) => Len(e.w) >= e.n)
        \cup Chk("W02", "no-need",
                 (e.op = "complete" /\ st.w # <<>> /\ (e.n <= Len(st.w) \/ Kind = "dir"))
                   => Len(e.w) = Len(st.w))

(* ---- W03: tail --------------------------------------------------------- *)
TailOK(e) ==
   IF e.op # "tail" THEN {}
   ELSE IF FLt(e.x, 0) \/ FLe(1, e.x)
   THEN Chk("W03", "out-of-range", e.err = "ValueError" /\ e.w = st.w)
   ELSE Chk("W03", "mass", FLe(FSub(e.x, "1e-12"), FSum(e.w)))
        \cup Chk("W03", "returned", e.ret = e.w)
        \cup Chk("W03", "prefix", Kind \notin {"eq", "fr"} => Prefix(st.w, e.w))

(* ---- W04, W05, W06: laws ----------------------------------------------- *)
\* draws of this operation whose value is stick v
Explains(e, v, left) == {k \in DOMAIN e.beta :
   FClose(e.beta[k][3], v, "1e-8", "1e-9") \/ FClose(FSub(1, e.beta[k][3]), v, "1e-9", "1e-10")}
Oriented(b, v) == IF FClose(b[3], v, "1e-8", "1e-9") THEN b ELSE <<b[2], b[1], b[3]>>
Covered(nps) ==   \* is the law of the new sticks a function of the latest fit?
   (Kind \notin TieKinds /\ Indep(LKind, LPar))
   \/ \A i \in DOMAIN nps.sticks : nps.sticks[i] = nps.fit
LawOK(e, nps) ==
   IF e.op \notin Drawing \/ e.w = <<>> \/ ~(Prop \in {LProp, "ALL"}) THEN {}
   ELSE LET w == e.w  v == Sticks(w)  r == Left(w)
            new == PNew(st.ps, nps, e.op = "random")
            ok(i) == LET X == Explains(e, v[i], r[i]) IN
                     X = {} \/ \E k \in X : DrawOK(LKind, LPar, st.d, e.p, v, i, Oriented(e.beta[k], v[i]))
        IN
        CASE LKind = "eq" -> Chk(LProp, "law", \A i \in DOMAIN w : FClose(w[i], FDiv(1, LPar.n), "1e-12", 0))
          [] LKind = "fr" ->
               IF e.op \notin {"random", "complete"} THEN {} ELSE Chk(LProp, "law",
                   IF st.d = <<>> THEN Len(w) = LPar.n /\ \A i \in DOMAIN w : FClose(w[i], FDiv(1, LPar.n), "1e-12", 0)
                   ELSE /\ Len(w) = DMax(st.d) + 1
                        /\ \A i \in DOMAIN w : FClose(w[i], FDiv(NAt(st.d, i-1), Len(st.d)), "1e-12", 0))
          [] LKind = "dir" ->
               LET al == [i \in DOMAIN LPar.dalpha |-> FAdd(LPar.dalpha[i], NAt(st.d, i - 1))]
                   X == {k \in DOMAIN e.dir : VClose(e.dir[k][2], w, "1e-9", "1e-12")}
               IN IF new = {} \/ X = {} THEN {}
                  ELSE Chk(LProp, "law", \E k \in X : VClose(e.dir[k][1], al, "1e-9", "1e-12"))
          [] OTHER ->
               (IF Covered(nps) /\ (~OneStick(LKind, LPar) \/ 1 \in new)
                THEN Chk(LProp, "law", \A i \in new : FLt("1e-4", r[i]) => ok(i)) ELSE {})
               \cup Chk(LProp, "one-stick", OneStick(LKind, LPar) =>
                        \A i \in DOMAIN w : FLt("1e-5", r[i]) => FClose(v[i], v[1], "1e-7", "1e-9"))
               \cup Chk(LProp, "distinct",
                        Indep(LKind, LPar) =>
                        \A i \in new : (i > 1 /\ FLt("1e-4", r[i]) /\ FLt(v[i], "0.999") /\ FLt("0.001", v[i])) =>
                              ~FClose(v[i], v[i-1], "1e-12", 0))
FreshOK(e) ==   \* a draw is a new draw
   Chk(LProp, "fresh",
       (e.op = "random" /\ Kind \notin {"eq", "fr"} /\ st.w # <<>> /\ e.w # <<>>
          /\ FLt("1e-9", e.w[1]) /\ FLt(e.w[1], "0.999999999"))
         => ~FEq(e.w[1], st.w[1]))

(* ---- W07: likelihoods --------------------------------------------------- *)
AssignLL(w, d) == FSum([i \in DOMAIN d |-> FLog(w[d[i] + 1])])
LikOK(e) ==
   CASE e.op = "assignll" ->
          LET dd == IF e.default THEN st.d ELSE e.d IN
          Chk("W07", "assignation",
              /\ DMax(dd) < Len(e.w)
              /\ FClose(e.ll, AssignLL(e.w, dd), "1e-9", "1e-9"))
     [] e.op = "wll" ->
          LET prop == IF S.special THEN "W06" ELSE "W07"
              usable == /\ e.w # <<>>
                        /\ (Kind \in FiniteKinds \/ FLt("1e-5", Left(e.w)[Len(e.w)]))
                        /\ (LKind = "bn" => (Len(st.z) = Len(e.w) /\ \A i \in DOMAIN st.z : st.z[i] >= 0))
                        /\ \A i \in DOMAIN e.w : FLt(0, e.w[i])
          IN IF ~usable THEN {} ELSE
             Chk(prop, "weights-log-likelihood",
                 FClose(e.ll, WLogLik(LKind, LPar, e.w, e.p, st.z), "1e-6", "1e-6"))
             \cup Chk("W07", "unchanged", e.w = st.w)
     [] OTHER -> {}

(* ---- W08: random assignments -------------------------------------------- *)
SampleOK(e) ==
   IF e.op # "rassign" THEN {}
   ELSE Chk("W08", "shape", e.shape = (IF e.n < 0 THEN <<>> ELSE <<e.n>>))
        \cup Chk("W08", "support", \A i \in DOMAIN e.out :
                   e.out[i] >= 0 /\ e.out[i] < Len(e.w) /\ FLt(0, e.w[e.out[i] + 1]))
        \cup Chk("W08", "unchanged", e.w = st.w)
Z(sum, N, p) ==   \* binomial count within 6.5 standard deviations (plus 6, for rare events)
   FLe(FAbs(FSub(sum, FMul(N, p))), FAdd(FMul("6.5", FSqrt(FMul(N, FMul(p, FSub(1, p))))), 6))
ZM(sum, N, m1, m2) ==  \* sum of N draws with mean m1 and second moment m2
   LET var == FMax(FSub(m2, FMul(m1, m1)), 0)
   IN FLe(FAbs(FSub(sum, FMul(N, m1))),
          FAdd(FMul("6.5", FSqrt(FMul(N, var))), IF FLt(var, "1e-12") THEN FMul(N, "1e-9") ELSE 6))
FreqOK(e) ==
   IF e.op # "rfreq" THEN {}
   ELSE LET tot == FSum(e.w)  n == Len(e.w)
            q == SeqOf(n, LAMBDA i : FDiv(e.w[i], tot)) IN
        Chk("W08", "frequencies", /\ Len(e.cnt) = n
                                  /\ ISum(e.cnt) = e.N
                                  /\ \A i \in 1..n : Z(e.cnt[i], e.N, q[i]))
        \cup Chk("W08", "independent", \A i, j \in 1..n : Z(e.pair[i][j], e.N \div 2, FMul(q[i], q[j])))
        \cup Chk("W08", "unchanged", e.w = st.w)
\* many small draws: first and second entry of one draw, and last entry of a draw with the
\* first of the next one
SmallOK(e) ==
   IF e.op # "rsmall" THEN {}
   ELSE LET tot == FSum(e.w)  n == Len(e.w)
            q == SeqOf(n, LAMBDA i : FDiv(e.w[i], tot)) IN
        Chk("W08", "independent-within", \A i, j \in 1..n : Z(e.within[i][j], e.N, FMul(q[i], q[j])))
        \cup Chk("W08", "independent-across", \A i, j \in 1..n : Z(e.across[i][j], e.N \div 2, FMul(q[i], q[j])))
        \cup Chk("W08", "spread", \* the number of entries of a group in a draw of size s is binomial
               \A i \in 1..n : LET m == FMul(e.s, q[i])  v == FMul(m, FSub(1, q[i]))
                                    m4 == FAdd(FMul(3, FMul(v, v)), FMul(v, FSub(1, FMul(6, FMul(q[i], FSub(1, q[i]))))))
                                IN ZM(e.sq[i], e.N, v, m4))
        \cup Chk("W08", "unchanged", e.w = st.w)

(* ---- moments of many independent draws (W04, W05, W06) ------------------- *)
MomOK(e) ==
   IF e.op # "mom" THEN {}
   ELSE LET p == IF S.special THEN "W06" ELSE IF e.d = <<>> THEN "W04" ELSE "W05"
            J == Len(e.s1)
            law(j) ==
              IF LKind \in TieKinds THEN <<"1.0", LPar.alpha>>
              ELSE IF LKind = "dir" THEN
                   LET al == [i \in DOMAIN LPar.dalpha |-> FAdd(LPar.dalpha[i], NAt(e.d, i - 1))]
                   IN <<al[j], FSub(FSum(al), al[j])>>
              ELSE StickLaw(LKind, LPar, e.d, "0.0", j - 1)
            m(j) == M4(law(j))
            tie(j) == \* probability that stick j equals stick j-1 (prior)
              CASE OneStick(LKind, LPar) -> "1.0"
                [] LKind = "bb" -> FSub(1, LPar.p)
                [] LKind = "bid" -> FDiv(1, FAdd(1, LPar.a))
                [] OTHER -> "0.0"
            old(j) == \* probability that stick j is one of the previous
              CASE LKind = "bid" -> FDiv(j - 1, FAdd(LPar.a, j - 1))
                [] OTHER -> tie(j)
            cr(j, k) == \* E (v_j v_{j+1})^k
              CASE LKind = "bn" -> BnCross(LPar, k)
                [] LKind = "dir" ->
                     LET A == FSum([i \in DOMAIN LPar.dalpha |-> FAdd(LPar.dalpha[i], NAt(e.d, i - 1))])
                         x == law(j)[1]  y == law(j+1)[1]
                     IN IF k = 1 THEN FDiv(FMul(x, y), FMul(A, FAdd(A, 1)))
                        ELSE FDiv(FMul(FMul(x, FAdd(x, 1)), FMul(y, FAdd(y, 1))),
                                  FMul(FMul(A, FAdd(A, 1)), FMul(FAdd(A, 2), FAdd(A, 3))))
                [] OTHER -> FAdd(FMul(tie(j+1), m(j)[2*k]),
                                 FMul(FSub(1, tie(j+1)), FMul(m(j)[k], m(j+1)[k])))
            \* correlation of sticks j < k (prior), as the probability of a tie or of the chain
            rho(j, k) ==
              CASE OneStick(LKind, LPar) -> "1.0"
                [] LKind = "bb" -> FPow(FSub(1, LPar.p), k - j)
                [] LKind = "bid" -> FDiv(1, FAdd(1, LPar.a))
                [] LKind = "bn" -> FPow(FDiv(LPar.n, FAdd(LPar.alpha, LPar.n + 1)), k - j)
                [] OTHER -> "0.0"
            \* E (v_j - v_k)^2
            dsq(j, k) ==
              LET vj == FSub(m(j)[2], FMul(m(j)[1], m(j)[1]))
                  vk == FSub(m(k)[2], FMul(m(k)[1], m(k)[1]))
                  dm == FSub(m(j)[1], m(k)[1])
              IN FAdd(FNAdd3(vj, vk, FMul(dm, dm)),
                      FMul(-2, FMul(rho(j, k), FSqrt(FMul(vj, vk)))))
        IN
        Chk(p, "mean", \A j \in 1..J : ZM(e.s1[j], e.N, m(j)[1], m(j)[2]))
        \cup Chk(p, "second-moment", \A j \in 1..J : ZM(e.s2[j], e.N, m(j)[2], m(j)[4]))
        \cup Chk(p, "cross-moment", \A j \in 1..(J-1) : ZM(e.cr[j], e.N, cr(j, 1), cr(j, 2)))
        \cup (IF LKind = "dir" THEN {} ELSE   \* the spread of (v_j - v_k)^2 is the observed one
              Chk(p, "pairs", \A j \in 1..J : \A k \in (j+1)..J :
                    LET q == FMax(FDiv(e.q4[j][k], FMax(e.N, 1)), FMul(dsq(j, k), dsq(j, k)))
                    IN FLe(FAbs(FSub(e.q2[j][k], FMul(e.N, dsq(j, k)))),
                           FAdd(FMul("7.5", FSqrt(FMul(e.N, q))), FAdd("1e-9", FMul(8, FMax(dsq(j, k), e.q2m[j][k])))))))
        \cup (IF LKind \in {"dir", "bn"} THEN {} ELSE
              Chk(p, "ties", \A j \in 2..J : /\ Z(e.tie[j], e.N, tie(j)) /\ Z(e.old[j], e.N, old(j))))
(* beta-in-beta: sticks given p, and p, through probability integral transforms *)
PitOK(e) ==
   IF e.op # "pit" THEN {}
   ELSE LET p == IF e.d = <<>> THEN "W04" ELSE "W05"
            N == Len(e.smp)  J == Len(e.smp[1][2])
            u(i, j) == LET q == StickLaw(LKind, LPar, e.d, e.smp[i][1], j - 1)
                       IN FBetaCdf(e.smp[i][2][j], q[1], q[2])
            pl == PLaw(LPar, e.d, S.pm)
            up == [i \in 1..N |-> FBetaCdf(e.smp[i][1], pl[1], pl[2])]
            uni(s) == /\ ZM(FSum(s), N, "0.5", FDiv(1, 3))
                      /\ ZM(FDot(s, s), N, FDiv(1, 3), FDiv(1, 5))
        IN IF Prop \notin {p, "ALL"} THEN {} ELSE
           Chk(p, "pit", \A j \in 1..J : uni(SeqOf(N, LAMBDA i : u(i, j))))
           \cup Chk(p, "pit-p", (e.d = <<>> \/ S.pm \in {"geometric", "independent"}) => uni(Force(up)))

(* the common parameter of beta-in-beta redrawn after a fit, the sticks e.v kept *)
PDrawOK(e) ==
   IF e.op # "pdraw" \/ ~(Prop \in {"W05", "ALL"}) THEN {}
   ELSE LET N == Len(e.ps)
            uni(s) == /\ ZM(FSum(s), N, "0.5", FDiv(1, 3))
                      /\ ZM(FDot(s, s), N, FDiv(1, 3), FDiv(1, 5))
            G == 400
            g == SeqOf(G, LAMBDA i : FDiv(FSub(i, "0.5"), G))
            ll(q) == PLogLik(LPar, q, e.v)
            f == SeqOf(G, LAMBDA i : ll(g[i]))
            c == FCumSum([i \in 1..G |-> FExp(FSub(f[i], FMaxS(f)))])
            \* probability of a parameter at most q, by the midpoint rule
            F(q) == LET k == FRound(FMul(G, q)) IN IF k = 0 THEN "0.0" ELSE FDiv(c[IF k > G THEN G ELSE k], c[G])
        IN Chk("W05", "p-range", \A i \in 1..N : FLe(0, e.ps[i]) /\ FLe(e.ps[i], 1))
           \cup
           (CASE S.pm = "static" -> Chk("W05", "p-static", \A i \in 1..N : e.ps[i] = e.p0)
              [] S.pm = "max-likelihood" ->
                   Chk("W05", "p-maximum", \A i \in 1..N :
                       \/ e.ps[i] = e.p0
                       \/ FLe(FMaxS(f), FAdd(ll(e.ps[i]), "1e-3")))
                   \cup Chk("W05", "p-moves", FLe(FMaxS(f), FAdd(ll(e.p0), "0.5"))
                                             \/ \E i \in 1..N : e.ps[i] # e.p0)
              [] S.pm = "inverse-sampling" ->
                   Chk("W05", "p-inverse", uni(SeqOf(N, LAMBDA i : F(e.ps[i]))))
              [] OTHER -> LET pl == PLaw(LPar, e.d, S.pm)
                          IN Chk("W05", "p-law", uni(SeqOf(N, LAMBDA i : FBetaCdf(e.ps[i], pl[1], pl[2])))))

(* ---- the step ------------------------------------------------------------ *)
Failed(e, nps) ==
   IF e.err # "" /\ ~(e.op = "tail" /\ (FLt(e.x, 0) \/ FLe(1, e.x)))
                 /\ ~(e.op = "complete" /\ e.badsize)
   THEN Chk(ErrProp(e.op), "unexpected " \o e.err \o " in " \o e.op, FALSE)
   ELSE IF e.op = "complete" /\ e.badsize
   THEN Chk("W02", "type", Kind \in StickKinds => (e.err = "TypeError" /\ e.w = st.w))
   ELSE IF e.op \in {"mom", "pit", "pdraw"} THEN MomOK(e) \cup PitOK(e) \cup PDrawOK(e)
   ELSE WeightsOK(e) \cup RetOK(e) \cup AppendOK(e) \cup TailOK(e) \cup LawOK(e, nps) \cup FreshOK(e)
        \cup LikOK(e) \cup SampleOK(e) \cup FreqOK(e) \cup SmallOK(e)

\* binomial latents of "bn", known only for prior draws explained by a recorded draw
Latents(e, nps) ==
   IF Kind # "bn" THEN <<>>
   ELSE LET v == Sticks(e.w)
            new == PNew(st.ps, nps, e.op = "random")
            z(i) == LET X == Explains(e, v[i], 1) IN
                    IF st.d # <<>> \/ X = {} THEN -1
                    ELSE LET k == CHOOSE k \in X : TRUE IN FRound(FSub(Oriented(e.beta[k], v[i])[1], 1))
        IN [i \in DOMAIN e.w |-> IF i \in new THEN z(i) ELSE IF i <= Len(st.z) THEN st.z[i] ELSE -1]

NextPS(e) ==
   CASE e.op = "fit" -> PFit(st.ps, e.fid)
     [] e.op = "reset" -> PReset(st.ps)
     [] e.op = "random" -> PRandom(st.ps, Len(e.w))
     [] e.op \in {"complete", "tail", "assignll"} -> PExtend(st.ps, Len(e.w))
     [] OTHER -> st.ps

Step ==
   /\ l <= Len(S.evs)
   /\ LET e == S.evs[l]
          nps == NextPS(e)
          bad == Failed(e, nps)
          upd == e.op \notin {"mom", "pit", "pdraw"}
      IN /\ (bad # {} => PrintT(<<"BAD", t, l, bad>>))
         /\ st' = IF ~upd THEN st ELSE
                  [ps |-> nps, w |-> e.w,
                   d |-> IF e.op = "fit" THEN e.d ELSE IF e.op = "reset" THEN <<>> ELSE st.d,
                   z |-> IF e.err = "" /\ e.op \in Drawing THEN Latents(e, nps) ELSE st.z,
                   p |-> e.p]
         /\ (l = Len(S.evs) => PrintT(<<"DONE", t>>))
   /\ l' = l + 1 /\ t' = t
Next == Step
Spec == Init /\ [][Next]_vars
\* design invariant carried along: what was observed has the size of the protocol state
SizeInv == Len(st.ps.sticks) = Len(st.w) \/ Kind \in FiniteKinds
=============================================================================
