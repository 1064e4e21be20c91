------------------------------ MODULE TraceUnits ------------------------------
(***************************************************************************)
(* Checks pairs of objects with the same parameters and seed, the second    *)
(* one given everything after a change u of units: what each shows must be  *)
(* carried into what the other shows by that change.                        *)
(* events (a: first object, b: second one)                                  *)
(*   state  a state of a chain        ll     a log-likelihood               *)
(*   vstate a variational fit         dens   densities in e.m variables     *)
(*   pri    priors in use             same   numbers without units          *)
(*   labs   integers                                                        *)
(***************************************************************************)
EXTENDS Units, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop  == IOEnv.PROP
VARIABLES t, l
vars == <<t, l>>
S == Trace[t]
U == S.u
N == S.n
D == Len(U.p)
Init == t \in 1..Len(Trace) /\ l = 1
Chk(name, cond) == IF cond THEN {} ELSE {<<Prop, name>>}
\* relative to the size of the numbers: a shift loses some digits
Size(v) == FMaxS([k \in DOMAIN v |-> FAbs(v[k])])
NearV(v, w) == Len(v) = Len(w) /\ VClose(v, w, "1e-6", FMul("1e-8", FMax(Size(w), FMul(U.c, Size(S.sd)))))
NearM(a, b) == Len(a) = Len(b) /\ \A k \in DOMAIN a : \A m \in DOMAIN a :
   FClose(a[k][m], b[k][m], "1e-6", FMul("1e-7", FSqrt(FMul(b[k][k], b[m][m]))))
Num(v, w) == Len(v) = Len(w) /\ VClose(v, w, "1e-6", "1e-7")
Reg(a) == \A j \in DOMAIN a.th : a.th[j] = <<>> \/ RegLaw(a.th[j][2])
StateOK(a, b) ==
   Chk("assignments", a.d = b.d)
   \cup Chk("weights", Num(a.w, b.w) /\ Num(a.u, b.u))
   \cup Chk("atoms", LET z == UState(U, a).th IN
              /\ Len(z) = Len(b.th)
              /\ \A j \in DOMAIN z : /\ Len(z[j]) = Len(b.th[j])
                                     /\ z[j] # <<>> => NearV(z[j][1], b.th[j][1]) /\ NearM(z[j][2], b.th[j][2]))
VOK(a, b) ==
   Chk("responsibilities", Len(a.r) = Len(b.r) /\ \A j \in DOMAIN a.r : VClose(a.r[j], b.r[j], "1e-6", "1e-7"))
   \cup Chk("weights", Num(a.wm, b.wm) /\ Num(a.wl, b.wl))
   \cup Chk("components", /\ Len(a.th) = Len(b.th)
                          /\ \A j \in DOMAIN a.th : LET z == USoft(U, a.th[j])  y == b.th[j] IN
                                /\ NearV(z[1], y[1]) /\ FClose(z[2], y[2], "1e-6", 0) /\ FClose(z[4], y[4], "1e-6", 0)
                                /\ (MPosDef(y[3]) => NearM(z[3], y[3])))
Failed(e) ==
   IF e.erra # e.errb THEN Chk("error " \o e.op, FALSE)
   ELSE IF e.erra # "" THEN {}
   ELSE CASE e.op = "state"  -> StateOK(e.a, e.b)
          [] e.op = "vstate" -> VOK(e.a, e.b)
          [] e.op = "ll"     -> Chk("log-likelihood", FClose(ULog(U, e.a, N, D), e.b, "1e-6", "1e-3"))
          [] e.op = "dens"   -> Chk("density " \o e.q, /\ Len(e.a) = Len(e.b)
                                    /\ \A i \in DOMAIN e.a : FClose(UDens(U, e.a[i], e.m), e.b[i], "1e-4",
                                           FMax(FMul("1e-9", FMaxS(e.b)),
                                                \* what underflows in one of them
                                                FMul("1e-290", FMax(1, UDens(U, 1, e.m))))))
          [] e.op = "pri"    -> Chk("priors", /\ NearV(UVec(U, e.a.m), e.b.m) /\ NearM(UCov(U, e.a.psi), e.b.psi)
                                              /\ FEq(e.a.l, e.b.l) /\ FEq(e.a.nu, e.b.nu))
          [] e.op = "same"   -> Chk(e.q, Len(e.a) = Len(e.b) /\ VClose(e.a, e.b, "1e-5", "1e-6"))
          [] e.op = "labs"   -> Chk(e.q, e.a = e.b)
Step ==
   /\ l <= Len(S.evs)
   /\ LET e == S.evs[l]  bad == Failed(e) IN
      /\ (bad # {} => PrintT(<<"BAD", t, l, bad>>))
      /\ (l = Len(S.evs) => PrintT(<<"DONE", t>>))
   /\ l' = l + 1 /\ t' = t
Next == Step
Spec == Init /\ [][Next]_vars
=============================================================================
