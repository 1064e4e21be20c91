-------------------------- MODULE TraceVarWeights --------------------------
(***************************************************************************)
(* Recorded variational fits of the weighting models and their queries.     *)
(***************************************************************************)
EXTENDS VarLaws, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop  == IOEnv.PROP
VARIABLES t, l, st
vars == <<t, l, st>>
S == Trace[t]
Kind == S.kind
Par == S.par
\* vd: soft assignments of the latest fit; q: parameters; ans: last answers
Init == t \in 1..Len(Trace) /\ l = 1 /\ st = [fit |-> FALSE, vd |-> <<>>, q |-> <<>>, ans |-> ""]
Chk(p, name, cond) == IF Prop \notin {p, "ALL"} THEN {}
                      ELSE IF cond THEN {} ELSE {<<p, name>>}
Close(x, y) == FClose(x, y, "1e-8", "1e-9")

ParamsOK(e) ==
   CASE Kind \in {"dp", "py"} ->
          /\ Len(e.params) = Len(st.vd)
          /\ \A j \in 1..(Len(st.vd)-1) : VClose(e.params[j], st.q[j], "1e-9", "1e-9")
     [] Kind = "geo" -> Len(e.params) = 1 /\ VClose(e.params[1], st.q, "1e-9", "1e-9")
     [] Kind = "dir" -> Len(e.params) = 1 /\ VClose(e.params[1], st.q, "1e-9", "1e-9")
     [] OTHER -> TRUE
QueryOK(e) ==
   LET k == Len(st.vd)  J == Len(e.mean)
       vd == st.vd  q == st.q
       mean == SeqOf(J, LAMBDA j : VMean(Kind, Par, vd, q, j))
       mlog == SeqOf(J, LAMBDA j : VMeanLog(Kind, Par, vd, q, j))
   IN Chk("V01", "parameters", ParamsOK(e))
      \cup Chk("V01", "mean", \A j \in 1..J : Close(e.mean[j], mean[j]))
      \cup Chk("V01", "mean-log", \A j \in 1..J : Close(e.mlog[j], mlog[j]))
      \cup Chk("V01", "beyond", \A j \in 1..J : j > k => (FEq(e.mean[j], 0) /\ FEq(e.mlog[j], "-inf")
                                                          /\ FEq(e.mode[j], 0)))
      \cup Chk("V01", "sum", LET s == FSum(e.mean) IN
                IF Kind = "geo" THEN FLe(s, "1.000000001") ELSE FClose(s, 1, 0, "1e-9"))
      \cup Chk("V01", "jensen", \A j \in 1..J : FLe(FExp(e.mlog[j]), FAdd(e.mean[j], "1e-9")))
      \cup Chk("V01", "log-prior", Close(e.lpw, VLogP(Kind, Par, vd, q)))
      \cup Chk("V01", "log-q", Close(e.lqw, VLogQ(Kind, Par, vd, q)))
      \cup Chk("V01", "log-assignation", Close(e.lpd, VLogD(Kind, Par, vd, q, vd)))
      \cup Chk("V01", "log-assignation-of-others", Close(e.lpd2, VLogD(Kind, Par, vd, q, e.vd2)))
      \cup Chk("V01", "mode", \A j \in 1..J :
                LET m == VMode(Kind, Par, vd, q, j) IN m = "undefined" \/ (e.mode[j] # "error" /\ Close(e.mode[j], m)))
      \cup Chk("V01", "repeatable", st.ans # "" => st.ans = e.dig)
NotFittedOK(e) ==
   Chk("L01", "not-fitted", Kind # "eq" => \A i \in DOMAIN e.errs : e.errs[i] = "NotFittedError")
Failed(e) ==
   IF e.err # "" THEN Chk(Prop, "unexpected " \o e.err \o " in " \o e.op, FALSE)
   ELSE CASE e.op = "q" -> QueryOK(e)
          [] e.op = "unfitted" -> NotFittedOK(e)
          [] OTHER -> {}
Step ==
   /\ l <= Len(S.evs)
   /\ LET e == S.evs[l]  bad == Failed(e)
      IN /\ (bad # {} => PrintT(<<"BAD", t, l, bad>>))
         /\ st' = CASE e.op = "fitvar" ->
                         [fit |-> TRUE, vd |-> e.vd, q |-> VParams(Kind, Par, e.vd), ans |-> ""]
                    [] e.op = "q" -> [st EXCEPT !.ans = e.dig]
                    [] OTHER -> st
         /\ (l = Len(S.evs) => PrintT(<<"DONE", t>>))
   /\ l' = l + 1 /\ t' = t
Next == Step
Spec == Init /\ [][Next]_vars
=============================================================================
