------------------------------ MODULE MCSession ------------------------------
(***************************************************************************)
(* All histories of an object up to a length, against a reference that      *)
(* only knows the fits since the last one from cold.  Histories are printed *)
(* for replay.                                                              *)
(***************************************************************************)
EXTENDS Session, TLC, Json, FiniteSets
CONSTANTS MaxLen, Datas, Bad, Prn    \* Bad: kinds of refused calls in the histories
VARIABLES o, h, since
vars == <<o, h, since>>
Init == o = NewObj("P", <<"gen", "S">>) /\ h = <<>> /\ since = <<>>
GF == \E d \in Datas, w \in BOOLEAN :
        /\ w => CanGoOn(o, "g", d)
        /\ o' = GFit(o, d, "A", w, FALSE)
        /\ h' = Append(h, [op |-> "gfit", d |-> d, warm |-> w])
VF == \E d \in Datas, w \in BOOLEAN :
        /\ w => CanGoOn(o, "v", d)
        /\ o' = VFit(o, d, "A", w)
        /\ h' = Append(h, [op |-> "vfit", d |-> d, warm |-> w])
Q == \E m \in {"g", "v"}, p \in {"", "X"} :
        /\ o' = o
        /\ h' = Append(h, [op |-> "q" \o m, d |-> p, warm |-> FALSE])
NO == \E k \in Bad, m \in {"g", "v"} :
        /\ k = "groups" => m = "v"
        /\ o' = Refuse(o)
        /\ h' = Append(h, [op |-> "no" \o m, d |-> k, warm |-> FALSE])
Next == /\ Len(h) < MaxLen
        /\ GF \/ VF \/ Q \/ NO
        /\ since' = h'
Spec == Init /\ [][Next]_vars
Fits(k) == {i \in DOMAIN h : h[i].op = k}
\* --- design properties ----------------------------------------------------
\* an object answers the queries of a method exactly when it has been fitted by it
Enabled == /\ Fitted(o, "g") = (Fits("gfit") # {})
           /\ Fitted(o, "v") = (Fits("vfit") # {})
\* a fit from cold forgets: the fit is that of a new object with the same generator
LastOp == h[Len(h)]
Forgets == [][ (h' # h /\ h'[Len(h')].op \in {"gfit", "vfit"} /\ ~h'[Len(h')].warm) =>
                 LET e == h'[Len(h')]  f == NewObj("P", o.gen) IN
                 IF e.op = "gfit" THEN o'.g = GFit(f, e.d, "A", FALSE, FALSE).g /\ o'.v = o.v
                 ELSE o'.v = VFit(f, e.d, "A", FALSE).v /\ o'.g = o.g ]_vars
\* queries change nothing and a fit by one method leaves the other fit alone
Quiet == [][ (h' # h /\ h'[Len(h')].op \in {"qg", "qv"}) => o' = o ]_vars
\* a history with its refused calls left out leads to the same object
Run(s) == LET F[i \in 0..Len(s)] ==
                IF i = 0 THEN NewObj("P", <<"gen", "S">>)
                ELSE CASE s[i].op = "gfit" -> GFit(F[i-1], s[i].d, "A", s[i].warm, FALSE)
                       [] s[i].op = "vfit" -> VFit(F[i-1], s[i].d, "A", s[i].warm)
                       [] OTHER -> F[i-1]
          IN F[Len(s)]
Traceless == o = Run(SelectSeq(h, LAMBDA e : e.op \notin {"nog", "nov"}))
\* no draw is ever used twice
Fresh == [][ (h' # h /\ h'[Len(h')].op = "gfit") => o'.gen # o.gen ]_vars
Emit == (Prn /\ Len(h) = MaxLen) => PrintT("HIST " \o ToJson(h))
=============================================================================
