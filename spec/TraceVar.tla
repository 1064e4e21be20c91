------------------------------- MODULE TraceVar -------------------------------
(***************************************************************************)
(* Checks recorded variational fits and the answers computed from them.     *)
(*   init, iter  the states of a reference object, one iteration at a time  *)
(*   vfit        a fit of the object under test: where it ended             *)
(*   saved       the state of the object for the queries that follow        *)
(*   dens, clus, aff, cons  queries                                         *)
(***************************************************************************)
EXTENDS VarMix, VarFit, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop  == IOEnv.PROP
VARIABLES t, l, st
vars == <<t, l, st>>
S == Trace[t]
Y == S.Y
NObs == Len(Y)
Dim  == Len(Y[1])
Kind == S.kind
Par  == S.par
\* x: abstract life of the object; es, digs: objective and digest of the states of the sequence
Init == /\ t \in 1..Len(Trace) /\ l = 1
        /\ st = [x |-> XInit, xs |-> {XInit}, es |-> <<>>, digs |-> <<>>, reg |-> TRUE, sv |-> 0]
Chk(p, name, cond) == IF Prop \notin {p, "ALL"} THEN {}
                      ELSE IF cond THEN {} ELSE {<<p, name>>}
Want(p) == Prop \in {p, "ALL"}
Prior == PriorOf(S.pr, Y)
RegState(s) == \A j \in DOMAIN s.th : RegLaw(s.th[j][3])

(* ---- V02 ---------------------------------------------------------------- *)
Eps == "2.220446049250313e-16"
\* probabilities too small to matter are raised to the rounding unit
RClose(x, y) == FClose(x, y, "1e-5", "1e-12")
WeightsFitted(s) ==
   LET q == VParams(Kind, Par, s.r)  K == Len(s.r) IN
   /\ Len(s.wm) = K /\ Len(s.wl) = K
   /\ \A j \in 1..K : /\ FClose(s.wm[j], VMean(Kind, Par, s.r, q, j), "1e-8", "1e-12")
                      /\ FClose(s.wl[j], VMeanLog(Kind, Par, s.r, q, j), "1e-8", "1e-8")
Shape(s) == /\ Len(s.r) = Len(s.th) /\ \A j \in DOMAIN s.r : Len(s.r[j]) = NObs
StateOK(s) ==
   Chk("V02", "responsibilities", \A i \in 1..NObs :
        /\ \A j \in DOMAIN s.r : FLe(0, s.r[j][i])
        /\ FClose(FSum([j \in DOMAIN s.r |-> s.r[j][i]]), 1, 0, "1e-9"))
   \cup Chk("V02", "weights", WeightsFitted(s))
AtomsOK(s) ==
   Chk("V02", "atoms", \A j \in DOMAIN s.th :
        LET p == SoftPost(Prior, Y, s.r[j])  a == s.th[j] IN
        /\ VClose(a[1], p.m, "1e-8", "1e-9")
        /\ FClose(a[2], p.l, "1e-10", 0)
        /\ FClose(a[4], p.nu, "1e-10", 0)
        /\ (RegLaw(p.psi) => LET I == MMul(a[3], p.psi) IN
               \A k \in 1..Dim : \A m \in 1..Dim :
                  \* W psi = 1 whatever the units of the coordinates
                  FClose(FMul(I[k][m], FSqrt(FDiv(p.psi[k][k], p.psi[m][m]))),
                         IF k = m THEN 1 ELSE 0, 0, "1e-6")))
\* from a to b
UpdateOK(a, b) ==
   LET R == Resp(Kind, Par, a, Y) IN
   IF ~RegState(a) THEN {} ELSE
   Chk("V02", "update", /\ Len(b.r) = Len(a.r)
                        /\ \A i \in 1..NObs : \A j \in DOMAIN b.r : RClose(b.r[j][i], R[i][j]))
InitOK(s) ==
   Chk("V02", "components", Len(s.r) = S.k)
   \cup (IF S.init = "random"
         THEN Chk("V02", "uniform", \A j \in DOMAIN s.r : \A i \in 1..NObs : FClose(s.r[j][i], FDiv(1, S.k), "1e-12", 0))
         ELSE \* hard groups of all the observations
              LET n(j) == FSub(s.th[j][2], Prior.l) IN
              Chk("V02", "k-means", /\ \A j \in DOMAIN s.th : FClose(n(j), FRound(n(j)), 0, "1e-6") /\ FLe("-1e-9", n(j))
                                    /\ FClose(FSum([j \in DOMAIN s.th |-> n(j)]), NObs, 0, "1e-6")))

(* ---- V03 ------------------------------------------------------------------ *)
E == st.es
Tol(k) == FMul("1e-10", FAdd(1, FAbs(E[k])))
Diff(k) == FSub(E[k + 1], E[k])           \* change made by iteration k: E[1] is the initial state
Must(k, tol) == FLe(0, tol) /\ k + 1 <= Len(E) /\ FLe(FAbs(Diff(k)), FSub(tol, Tol(k + 1)))
May(k, tol)  == FLe(0, tol) /\ k + 1 <= Len(E) /\ FLe(FAbs(Diff(k)), FAdd(tol, Tol(k + 1)))
\* the object may be at several positions when a comparison is too close to call
Outcomes(e) == UNION {LET xs == XFits(x, e.warm, e.T, LAMBDA k : Must(k, e.tol), LAMBDA k : May(k, e.tol))
                      IN xs : x \in st.xs}
Feasible(e) == {o \in Outcomes(e) : o.pos + 1 <= Len(st.digs) /\ st.digs[o.pos + 1] = e.dig}
AllIn(e) == \A o \in Outcomes(e) : o.pos + 1 <= Len(st.digs)
Judged(e) == AllIn(e) /\ (FLt(e.tol, 0) \/ (st.reg /\ Want("V03")))
FitOK(e) ==
   IF ~Judged(e) THEN {}
   ELSE IF FLt(e.tol, 0)            \* never stops early
   THEN Chk("V02", "sequence", Feasible(e) # {})
        \cup Chk("V03", "convergence", ~e.conv)
   ELSE Chk("V03", "stops", Feasible(e) # {})
        \cup Chk("V03", "convergence", Feasible(e) # {} => \E o \in Feasible(e) : o.conv = e.conv)
NextXs(e) == IF ~Judged(e) THEN Outcomes(e) ELSE LET F == {o \in Feasible(e) : o.conv = e.conv} IN IF F = {} THEN Outcomes(e) ELSE F

(* ---- queries ---------------------------------------------------------------- *)
Sv == S.evs[st.sv].st
Plus1(s) == [i \in DOMAIN s |-> s[i] + 1]
QY(e) == IF e.pts = <<>> THEN Y ELSE e.pts
DensOK(e) ==
   LET dim == Plus1(e.dim)
       K == Len(Sv.th)
       X == IF e.pts # <<>> THEN e.pts
            ELSE [i \in 1..NObs |-> IF dim = <<>> THEN Y[i] ELSE [k \in 1..Len(dim) |-> Y[i][dim[k]]]]
       q == VParams(Kind, Par, Sv.r)
       w == SeqOf(K, LAMBDA j : IF e.which = "map" THEN VMode(Kind, Par, Sv.r, q, j) ELSE VMean(Kind, Par, Sv.r, q, j))
       J == {j \in 1..K : e.comp = -1 \/ e.comp + 1 = j}
       undef == \E j \in J : w[j] = "undefined"
       term(j, x) == IF e.which = "map" THEN MapTerm(Sv.th[j], w[j], x, dim) ELSE EapTerm(Sv.th[j], w[j], x, dim)
       val(x) == FSum([j \in 1..K |-> IF j \in J THEN term(j, x) ELSE 0])
   IN IF e.err # "" THEN Chk("V04", "unexpected " \o e.err, undef /\ e.err = "ValueError")
      ELSE Chk("V04", "shape", Len(e.out) = Len(X))
           \cup Chk("V04", "finite", \A i \in DOMAIN e.out : FFin(e.out[i]) /\ FLe(0, e.out[i]))
           \cup (IF Len(e.out) # Len(X) \/ ~RegState(Sv) \/ undef THEN {} ELSE
                 Chk("V04", "density " \o e.which, \A i \in DOMAIN X : FClose(e.out[i], val(X[i]), "1e-6", "1e-280"))
                 \cup Chk("V04", "alone", e.one = <<>> \/ \A i \in DOMAIN X : FClose(e.one[i], e.out[i], "1e-9", "1e-300"))
                 \cup Chk("V04", "terms", e.terms = <<>> \/ \A i \in DOMAIN X :
                        FClose(FSum([j \in DOMAIN e.terms |-> e.terms[j][i]]), e.out[i], "1e-9", "1e-300")))
\* responsibilities at the points asked: those of the fit, or computed
QResp(e) == IF e.pts = <<>> THEN SeqOf(NObs, LAMBDA i : [j \in DOMAIN Sv.r |-> Sv.r[j][i]])
            ELSE Resp(Kind, Par, Sv, e.pts)
Top2(p) == LET k == FArgMax(p) IN FSub(p[k], FMaxS([j \in 1..Len(p) |-> IF j = k THEN "-1.0" ELSE p[j]]))
ClusOK(e) ==
   LET X == QY(e)  n == Len(X)  R == QResp(e)  K == Len(Sv.th)
       best == SeqOf(n, LAMBDA i : FArgMax(R[i]))
       shape == Len(e.lab) = n /\ Len(e.unc) = n
   IN Chk("V05", "labels", shape /\ \A i \in DOMAIN e.lab : e.lab[i] >= 0 /\ e.lab[i] < K)
      \cup Chk("V05", "uncertainty-range", \A i \in DOMAIN e.unc : FFin(e.unc[i]) /\ FLe("-1e-12", e.unc[i]) /\ FLt(e.unc[i], 1))
      \cup Chk("V05", "plain", e.plain = e.lab)
      \cup (IF ~shape \/ (e.pts # <<>> /\ (~RegState(Sv) \/ e.extreme)) THEN {} ELSE
            Chk("V05", "cluster", \A i \in 1..n : FLt("1e-6", Top2(R[i])) => e.lab[i] + 1 = best[i])
            \cup Chk("V05", "uncertainty", \A i \in 1..n : FClose(e.unc[i], FSub(1, FMaxS(R[i])), "1e-5", "1e-6")))
      \cup (IF ~shape \/ e.extreme THEN {} ELSE      \* out there one rounding decides
            Chk("V05", "alone", e.one = <<>> \/ (/\ Len(e.one) = n
                  /\ \A i \in 1..n : /\ FClose(e.one[i][2], e.unc[i], "1e-6", "1e-7")
                                     /\ (FLt(e.unc[i], "0.499999") => FEq(e.one[i][1], FNum(e.lab[i]))))))
AffOK(e) ==
   LET n == Len(QY(e))  R == QResp(e)
       shape == Len(e.mat) = n /\ \A i \in 1..n : Len(e.mat[i]) = n
   IN Chk("V05", "matrix", shape /\ \A i \in 1..n : \A j \in 1..n :
             /\ FClose(e.mat[i][j], e.mat[j][i], 0, "1e-12")
             /\ FLe("-1e-12", e.mat[i][j]) /\ FLe(e.mat[i][j], "1.000000001"))
      \cup (IF ~shape \/ (e.pts # <<>> /\ (~RegState(Sv) \/ e.extreme)) THEN {} ELSE
            Chk("V05", "affinity", \A i \in 1..n : \A j \in 1..n :
                FClose(e.mat[i][j], FDot(R[i], R[j]), "1e-5", "1e-6")))
ConsOK(e) ==
   Chk("V05", "consensus", /\ Len(e.lab) = Len(QY(e))
                           /\ \A i \in DOMAIN e.lab : e.lab[i] >= 0 /\ e.lab[i] < e.n)

(* ---- the step ------------------------------------------------------------------ *)
OpProp(op) == CASE op = "clus" -> "V05" [] op \in {"aff", "cons"} -> "V05" [] op = "dens" -> "V04" [] OTHER -> Prop
Failed(e, es2, reg2) ==
   IF e.op = "dens" THEN DensOK(e)
   ELSE IF e.err # "" THEN Chk(OpProp(e.op), "unexpected " \o e.err \o " in " \o e.op, FALSE)
   ELSE CASE e.op = "init" -> IF ~Want("V02") THEN {} ELSE IF ~Shape(e.st) THEN Chk("V02", "shape", FALSE)
                              ELSE StateOK(e.st) \cup InitOK(e.st)
          [] e.op = "iter" -> IF Want("V02")
                              THEN IF ~Shape(e.st) THEN Chk("V02", "shape", FALSE)
                                   ELSE StateOK(e.st) \cup AtomsOK(e.st) \cup UpdateOK(S.evs[l - 1].st, e.st)
                              ELSE IF Want("V03") /\ reg2
                              THEN LET n == Len(es2) IN
                                   Chk("V03", "increases",
                                       FLe(FNeg(FMul("1e-8", FAdd(1, FAbs(es2[n])))), FSub(es2[n], es2[n - 1])))
                              ELSE {}
          [] e.op = "vfit" -> FitOK(e)
          [] e.op = "clus" -> IF Want("V05") THEN ClusOK(e) ELSE {}
          [] e.op = "aff"  -> IF Want("V05") THEN AffOK(e) ELSE {}
          [] e.op = "cons" -> IF Want("V05") THEN ConsOK(e) ELSE {}
          [] OTHER -> {}
Step ==
   /\ l <= Len(S.evs)
   /\ LET e == S.evs[l]
          ok == e.err = ""
          seq == e.op \in {"init", "iter"} /\ ok
          reg2 == IF seq THEN st.reg /\ Shape(e.st) /\ RegState(e.st) /\ RegLaw(Prior.psi) ELSE st.reg
          es2 == IF seq /\ Want("V03") /\ reg2 THEN Append(st.es, Elbo(Kind, Par, Prior, Y, e.st)) ELSE st.es
          bad == Failed(e, es2, reg2)
      IN /\ (bad # {} => PrintT(<<"BAD", t, l, bad>>))
         /\ st' = [st EXCEPT !.es = es2, !.reg = reg2,
                             !.digs = IF seq THEN Append(@, e.dig) ELSE @,
                             !.xs = IF e.op = "vfit" /\ ok THEN NextXs(e) ELSE @,
                             !.sv = IF e.op = "saved" THEN l ELSE @]
         /\ (l = Len(S.evs) => PrintT(<<"DONE", t>>))
   /\ l' = l + 1 /\ t' = t
Next == Step
Spec == Init /\ [][Next]_vars
=============================================================================
