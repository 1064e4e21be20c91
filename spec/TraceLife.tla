------------------------------ MODULE TraceLife ------------------------------
(***************************************************************************)
(* Checks recorded histories of objects against Session: what an object     *)
(* shows is a function of its terms.                                        *)
(* events                                                                   *)
(*   new o par gen | copy (a new object with the generator of another one)  *)
(*   gfit, vfit o data args warm init;  q o m q pts (query);  w o call      *)
(*   noise: something outside the object drew or seeded random numbers, or  *)
(*          the caller changed what it had passed                           *)
(*   bad: a call that must be refused with the error want                   *)
(*   no: a call of a kind m that Session refuses (kind)                     *)
(*   differ: objects whose chains must differ                               *)
(* each with err, what the object shows afterwards (obs), the answer (dig,  *)
(* num) and digests of the objects passed, before and after (ins)           *)
(***************************************************************************)
EXTENDS Session, F64, TLC, Json, IOUtils, FiniteSets

Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop  == IOEnv.PROP
VARIABLES t, l, st
vars == <<t, l, st>>
S == Trace[t]
\* objs: objects by name; memo: what was shown for each term
Init == t \in 1..Len(Trace) /\ l = 1 /\ st = [objs |-> <<>>, memo |-> <<>>]
Chk(name, cond) == IF cond THEN {} ELSE {<<Prop, name>>}
Key(term) == ToString(term)

Obj(n) == st.objs[n]
After(e) ==      \* objects after the event
   CASE e.op = "new" -> (e.o :> NewObj(e.par, IF e.copy = "" THEN <<"gen", e.gen>> ELSE Obj(e.copy).gen)) @@ st.objs
     [] e.op = "gfit" -> [st.objs EXCEPT ![e.o] = GFit(Obj(e.o), e.data, e.args, e.warm, e.init)]
     [] e.op = "vfit" -> [st.objs EXCEPT ![e.o] = VFit(Obj(e.o), e.data, e.args, e.warm)]
     [] e.op = "w" -> [st.objs EXCEPT ![e.o].g = WCall(Obj(e.o).g, e.call), ![e.o].gen = <<"after", WCall(Obj(e.o).g, e.call)>>]
     [] OTHER -> st.objs
(* terms shown by the event, with what they showed: <<term, digest, numbers>> *)
Shown(e, objs) ==
   LET ob == e.obs IN
   [i \in DOMAIN ob |->
      LET o == objs[ob[i].o] IN
      <<Key(CASE ob[i].what = "g"   -> <<"shows g", o.g>>
              [] ob[i].what = "v"   -> <<"shows v", o.v>>
              [] ob[i].what = "pri" -> <<"shows pri", o.pri>>
              [] ob[i].what = "gen" -> <<"shows gen", o.par, o.gen>>
              [] ob[i].what = "w"   -> <<"shows w", o.par, o.g, o.gen>>),
        ob[i].dig, ob[i].num>>]
   \o (IF e.op = "q" /\ e.err = "" /\ e.dig # "" THEN << <<Key(Answer(objs[e.o], e.m, e.q, e.pts)), e.dig, e.num>> >> ELSE <<>>)
   \o (IF e.op = "w" /\ e.err = "" THEN << <<Key(<<"result", objs[e.o].par, objs[e.o].g>>), e.dig, e.num>> >> ELSE <<>>)
Known(k) == k \in DOMAIN st.memo
\* rounding may depend on how the data are laid out: forms are compared as numbers
Same(a, d, n) == IF S.approx THEN VClose(a[2], n, "1e-6", "1e-8") ELSE a[1] = d
Mismatch(e, objs) ==
   LET s == Shown(e, objs) IN
   {i \in DOMAIN s : Known(s[i][1]) /\ ~Same(st.memo[s[i][1]], s[i][2], s[i][3])}
Name(e, objs, i) ==
   LET n == Len(e.obs) IN
   IF i > n THEN "same answer"
   ELSE LET w == e.obs[i].what IN
        CASE w = "g" -> "same chain" [] w = "v" -> "same variational fit" [] w = "pri" -> "same priors"
          [] w = "gen" -> "same generator" [] OTHER -> "same weights"
Remember(e, objs) ==
   LET s == Shown(e, objs)
       F[i \in 0..Len(s)] == IF i = 0 THEN st.memo
                             ELSE IF s[i][1] \in DOMAIN F[i-1] THEN F[i-1]
                             ELSE (s[i][1] :> <<s[i][2], s[i][3]>>) @@ F[i-1]
   IN F[Len(s)]
ErrOK(e) ==
   CASE e.op = "q" -> IF ~Fitted(Obj(e.o), e.m) THEN Chk("not-fitted", e.err = "NotFittedError")
                      ELSE Chk("unexpected " \o e.err, e.err = "" \/ (e.undef /\ e.err = "ValueError"))
     [] e.op = "no" -> Chk("refused", e.err = Refused(Obj(e.o), e.m, e.kind))
     [] e.op = "bad" -> Chk("refused", e.err = e.want)
     [] OTHER -> Chk("unexpected " \o e.err \o " in " \o e.op, e.err = "")
Failed(e, objs) ==
   ErrOK(e)
   \cup Chk("inputs-kept", \A i \in DOMAIN e.ins : e.ins[i][1] = e.ins[i][2])
   \cup (IF e.err # "" /\ e.op \notin {"q", "bad", "no"} THEN {} ELSE {<<Prop, Name(e, objs, i)>> : i \in Mismatch(e, objs)})
   \cup (IF e.op = "differ" THEN Chk("seeds differ", \A i, j \in DOMAIN e.digs : i # j => e.digs[i] # e.digs[j]) ELSE {})
Step ==
   /\ l <= Len(S.evs)
   /\ LET e == S.evs[l]
          objs == IF e.err = "" THEN After(e) ELSE st.objs
          bad == Failed(e, objs)
      IN /\ (bad # {} => PrintT(<<"BAD", t, l, bad>>))
         /\ st' = [objs |-> objs, memo |-> Remember(e, objs)]
         /\ (l = Len(S.evs) => PrintT(<<"DONE", t>>))
   /\ l' = l + 1 /\ t' = t
Next == Step
Spec == Init /\ [][Next]_vars
=============================================================================
