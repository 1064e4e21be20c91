------------------------------- MODULE MCUnits -------------------------------
(***************************************************************************)
(* The laws the specification is made of do not depend on the units: every  *)
(* composition of changes carries priors into priors, posteriors into       *)
(* posteriors, and keeps responsibilities and partitions.                   *)
(***************************************************************************)
EXTENDS Units, TLC
CONSTANTS MaxSteps

Sets == << << <<"0.3">>, <<"1.1">>, <<"4.2">>, <<"3.9">> >>,
           << <<"0.3", "1.0">>, <<"-0.8", "0.4">>, <<"4.0", "2.5">>, <<"3.1", "3.3">> >> >>
VARIABLES d, u, n
vars == <<d, u, n>>
Y == Sets[d]
D == Len(Y[1])
Init == d \in 1..2 /\ u = NoUnits(D) /\ n = 0
\* the change v after u
Scale == \E c \in {"0.001", "64.0"} : u' = [u EXCEPT !.c = FMul(c, @), !.s = [k \in 1..D |-> FMul(c, @[k])]]
Shift == \E k \in 1..D : u' = [u EXCEPT !.s[k] = FAdd(@, "7.25")]
Flip  == \E k \in 1..D : u' = [u EXCEPT !.g[k] = FNeg(@), !.s[k] = FNeg(@)]
Swap  == D = 2 /\ u' = [u EXCEPT !.p = <<@[2], @[1]>>, !.g = <<@[2], @[1]>>, !.s = <<@[2], @[1]>>]
Next == n < MaxSteps /\ n' = n + 1 /\ (Scale \/ Shift \/ Flip \/ Swap) /\ UNCHANGED d
Spec == Init /\ [][Next]_vars

Pr == [mu |-> <<>>, lam |-> "0.7", psi |-> <<>>, nu |-> "4.5"]
P == PriorOf(Pr, Y)
Z == UData(u, Y)
R == << <<"0.9", "0.8", "0.1", "0.3">>, <<"0.1", "0.2", "0.9", "0.7">> >>
Soft(p, ys) == [r |-> R, th |-> [j \in 1..2 |-> LET q == SoftPost(p, ys, R[j]) IN <<q.m, q.l, MInv(q.psi), q.nu>>]]
S0 == [w |-> <<"0.6", "0.4">>, u |-> <<"0.1", "0.1", "0.1", "0.1">>, d |-> <<0, 0, 1, 1>>,
       th |-> [j \in 1..2 |-> <<Y[2 * j - 1], MScale("0.8", P.psi)>>]]
WPar == [alpha |-> "1.3", d |-> "0.0", a |-> "1.0", b |-> "1.0", x |-> "0.5", n |-> 2, dalpha |-> <<"1.0", "1.0">>]
X0 == <<[k \in 1..D |-> "1.7"], [k \in 1..D |-> "-2.0"]>>
near(a, b) == FClose(a, b, "1e-7", "1e-7")
nearV(v, w) == \A i \in DOMAIN v : FClose(v[i], w[i], "1e-7", FMul("1e-7", u.c))
nearM(v, w) == \A i \in DOMAIN v : VClose(v[i], w[i], "1e-7", FMul("1e-7", FMul(u.c, u.c)))
Priors == LET a == UPrior(u, P)  b == PriorOf(Pr, Z) IN nearV(a.m, b.m) /\ nearM(a.psi, b.psi)
Posteriors == LET a == UPrior(u, NIWPost(P, Y))  b == NIWPost(UPrior(u, P), Z) IN nearV(a.m, b.m) /\ nearM(a.psi, b.psi)
Densities == \A i \in 1..2 : \A comp \in {-1, 0} :
   FClose(UDens(u, MixDens(S0, X0[i], <<>>, comp), D), MixDens(UState(u, S0), UVec(u, X0[i]), <<>>, comp), "1e-7", 0)
Marginals == \A i \in 1..2 : \A k \in 1..D :
   FClose(UDens(u, MixDens(S0, <<X0[i][k]>>, <<k>>, -1), 1),
          LET m == UDims(u, <<k>>) IN MixDens(UState(u, S0), <<UVec(u, X0[i])[m[1]]>>, m, -1), "1e-7", 0)
Likelihood == near(ULog(u, StateLL(S0, Y), Len(Y), D), StateLL(UState(u, S0), Z))
Choices == \A i \in 1..2 : LET a == Normalize(CompLog(S0, X0[i]))  b == Normalize(CompLog(UState(u, S0), UVec(u, X0[i]))) IN
   VClose(a, b, "1e-7", "1e-9")
V0 == Soft(P, Y)
V1 == Soft(UPrior(u, P), Z)
Updates == \A j \in 1..2 : LET a == USoft(u, V0.th[j]) IN
   /\ nearV(a[1], V1.th[j][1]) /\ FEq(a[2], V1.th[j][2]) /\ FEq(a[4], V1.th[j][4])
   /\ \A k \in 1..D : VClose(a[3][k], V1.th[j][3][k], "1e-6", FDiv("1e-8", FMul(u.c, u.c)))
Responsibilities == LET a == Resp("dp", WPar, V0, X0)  b == Resp("dp", WPar, V1, UData(u, X0)) IN
   \A i \in 1..2 : VClose(a[i], b[i], "1e-6", "1e-9")
Objective == near(ULog(u, Elbo("dp", WPar, P, Y, V0), Len(Y), D), Elbo("dp", WPar, UPrior(u, P), Z, V1))
Predictive == \A i \in 1..2 : \A j \in 1..2 :
   /\ FClose(UDens(u, EapTerm(V0.th[j], "0.5", X0[i], <<>>), D), EapTerm(V1.th[j], "0.5", UVec(u, X0[i]), <<>>), "1e-6", 0)
   /\ FClose(UDens(u, MapTerm(V0.th[j], "0.5", X0[i], <<>>), D), MapTerm(V1.th[j], "0.5", UVec(u, X0[i]), <<>>), "1e-6", 0)
=============================================================================
