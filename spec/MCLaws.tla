-------------------------------- MODULE MCLaws --------------------------------
(***************************************************************************)
(* The laws of WeightLaws and MixLaws fit together: posteriors are the      *)
(* priors times the likelihood up to a constant that does not depend on the *)
(* point and is the marginal likelihood of module Posterior; the law of the *)
(* ties of a tied structure adds up to one and is that of its urn.          *)
(***************************************************************************)
EXTENDS Posterior, TLC
CONSTANTS MaxN, Groups
P0 == [alpha |-> "1.0", d |-> "0.0", a |-> "1.0", b |-> "1.0", x |-> "0.5", p |-> "0.3", n |-> 3, dalpha |-> <<"1.0">>]
Models == {<<"dp", [P0 EXCEPT !.alpha = al]>> : al \in {"0.3", "2.5"}}
   \cup {<<"py", [P0 EXCEPT !.alpha = al, !.d = "0.3"]>> : al \in {"-0.1", "0.8"}}
   \cup {<<"geo", [P0 EXCEPT !.a = a, !.b = "1.5"]>> : a \in {"1.0", "2.0"}}
   \cup {<<"bib", [P0 EXCEPT !.a = "2.0", !.alpha = "1.3", !.x = x]>> : x \in {"0.0", "0.4", "1.0"}}
   \cup {<<"dir", [P0 EXCEPT !.dalpha = <<"0.5", "2.0", "1.0", "0.8">>]>>}
   \cup {<<"bb", [P0 EXCEPT !.alpha = "1.4", !.p = p]>> : p \in {"0.3", "1.0"}}
   \cup {<<"bid", [P0 EXCEPT !.alpha = "1.4", !.a = a]>> : a \in {"0.7", "3.0"}}
   \cup {<<"bn", [P0 EXCEPT !.alpha = "1.4", !.n = n]>> : n \in {1, 3}}
Tied == {"bb", "bid"}
Points == {<<"0.31", "0.62", "0.17", "0.44">>, <<"0.05", "0.5", "0.93", "0.2">>}
Sets == {<< <<"0.3">>, <<"1.1">>, <<"4.2">> >>, << <<"0.1", "2.0">>, <<"1.5", "-1.0">>, <<"3.9", "0.4">> >>}
VARIABLES m, d, v
vars == <<m, d, v>>
kind == m[1]
par == m[2]
K == 4
Init == m \in Models /\ d = <<>> /\ v \in Points
Next == /\ Len(d) < MaxN /\ kind \notin Tied \cup {"bn"}
        /\ \E j \in 0..(Groups - 1) : d' = Append(d, j)
        /\ UNCHANGED <<m, v>>
Spec == Init /\ [][Next]_vars
SeqK(F(_)) == [j \in 1..K |-> F(j)]
\* weights of the sticks v; structures with one stick only have one number to choose
V == IF OneStick(kind, par) THEN SeqK(LAMBDA j : v[1]) ELSE v
RECURSIVE Rest(_, _)
Rest(s, j) == IF j = 1 THEN "1.0" ELSE FMul(Rest(s, j - 1), FSub(1, s[j - 1]))
WOf(s) == [j \in 1..Len(s) |-> FMul(s[j], Rest(s, j))]
W == IF kind = "dir" THEN VScale(FDiv(1, FSum(v)), v) ELSE WOf(V)
LogW == FSum([i \in 1..Len(d) |-> FLog(W[d[i] + 1])])
Q == "0.35"            \* a value of the common parameter of beta-in-beta
Law(dd, j) == StickLaw(kind, par, dd, Q, j)
LogPost ==
   CASE kind = "dir" -> DirLogPdf(W, [j \in 1..K |-> FAdd(par.dalpha[j], NAt(d, j - 1))])
     [] OneStick(kind, par) -> BetaLogPdf(V[1], Law(d, 0)[1], Law(d, 0)[2])
     [] OTHER -> FSum(SeqK(LAMBDA j : BetaLogPdf(V[j], Law(d, j - 1)[1], Law(d, j - 1)[2])))
\* the part of the log density of the structure that does not concern the common parameter
LogPrior == IF kind = "bib" /\ ~OneStick(kind, par) /\ ~FEq(par.x, 0)
            THEN FSub(WLogLik(kind, par, W, Q, <<>>), BetaLogPdf(Q, par.a, par.b))
            ELSE WLogLik(kind, par, W, Q, <<>>)
\* expected probability of the assignments
Expected ==
   CASE kind = "dir" -> FDiv(FProd(SeqK(LAMBDA j : Rising(par.dalpha[j], NAt(d, j - 1)))), Rising(FSum(par.dalpha), Len(d)))
     [] OneStick(kind, par) -> Mom(Law(<<>>, 0), Len(d), ISum(d))
     [] OTHER -> FProd(SeqK(LAMBDA j : Mom(Law(<<>>, j - 1), NAt(d, j - 1), NBeyond(d, j - 1))))
Bayes == kind \notin Tied \cup {"bn"} =>
   FClose(FSub(FAdd(LogPrior, LogW), LogPost), FLog(Expected), "1e-9", "1e-9")
\* ties: the probability of a pattern is what the density gives beyond the density of its values
Values == <<"0.31", "0.62", "0.17", "0.44">>
Patterns == Parts(K)
PatV(c) == [j \in 1..K |-> Values[c[j]]]
PatLog(c) == FSub(WLogLik(kind, par, WOf(PatV(c)), Q, <<>>),
                  FSum([k \in 1..BlocksOf(c) |-> BetaLogPdf(Values[k], 1, par.alpha)]))
Successive(c) == \A j \in 1..(K - 1) : c[j + 1] \in {c[j], IMax({c[i] : i \in 1..j}) + 1}
Tying == kind \in Tied =>
   LET X == SetToSeq({c \in Patterns : kind = "bb" => Successive(c)}) IN
   FClose(FSum([i \in 1..Len(X) |-> FExp(PatLog(X[i]))]), 1, "1e-9", 0)
RECURSIVE UrnLog(_, _)
UrnLog(c, j) == IF j = 1 THEN "0.0" ELSE
   LET pre == SubSeq(c, 1, j - 1)
       old == NAt(pre, c[j])
   IN FAdd(UrnLog(c, j - 1), FSub(IF old = 0 THEN FLog(par.a) ELSE FLog(old), FLog(FAdd(par.a, j - 1))))
Urn == kind = "bid" => \A c \in Patterns : FClose(PatLog(c), UrnLog(c, K), "1e-9", "1e-9")
\* beta-binomial chain: with the indicators summed out, the first stick is Beta(1, alpha), and so are the next ones
Stationary == kind = "bn" => LET x == v[1] IN
   FClose(FLogSumExp([z \in 1..(par.n + 1) |-> WLogLik(kind, par, <<x>>, Q, <<z - 1>>)]),
          BetaLogPdf(x, 1, par.alpha), "1e-9", "1e-9")
Reversible == kind = "bn" => LET x == v[1]  y == v[2]
       two(a, b) == FLogSumExp([z \in 1..(par.n + 1) |->
          FAdd(BetaLogPdf(a, 1, par.alpha), FSub(WLogLik(kind, par, WOf(<<a, b>>), Q, <<0, z - 1>>),
                                                 WLogLik(kind, par, <<a>>, Q, <<0>>)))])
   IN FClose(two(x, y), two(y, x), "1e-9", "1e-9")
(* normal-inverse-Wishart atoms *)
NIWLog(p, mu, sg) ==
   LET D == Len(mu) IN
   FAdd(MVNS(mu, p.m, MScale(FDiv(1, p.l), sg)),
        FSub(WishLnB(MInv(p.psi), p.nu),
             FAdd(FMul(FDiv(FAdd(p.nu, D + 1), 2), MLogDet(sg)), FDiv(MTraceMul(p.psi, MInv(sg)), 2))))
Atom(D) == IF D = 1 THEN {<< <<"0.7">>, << <<"2.1">> >> >>, << <<"-3.0">>, << <<"0.3">> >> >>}
           ELSE {<< <<"0.7", "0.1">>, << <<"2.1", "0.4">>, <<"0.4", "1.0">> >> >>,
                 << <<"-3.0", "2.0">>, << <<"0.5", "-0.3">>, <<"-0.3", "0.9">> >> >>}
Conjugate == (d = <<>> /\ v = CHOOSE x \in Points : TRUE) => \A Y \in Sets : \A k \in 1..3 :
   LET p == PriorOf([mu |-> <<>>, lam |-> "0.7", psi |-> <<>>, nu |-> "3.5"], Y)
       X == SubSeq(Y, 1, k)
       q == NIWPost(p, X)
   IN \A a \in Atom(Len(Y[1])) :
        FClose(FSub(FAdd(NIWLog(p, a[1], a[2]), FSum([i \in 1..k |-> MVNS(X[i], a[1], a[2])])), NIWLog(q, a[1], a[2])),
               FLog(BlockLik(p, X)), "1e-9", "1e-9")
=============================================================================
