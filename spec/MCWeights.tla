------------------------------ MODULE MCWeights ------------------------------
(***************************************************************************)
(* Exhaustive exploration of the operation histories of a weighting         *)
(* structure.  Every history of length Depth is printed (HIST lines); the   *)
(* harness executes them on every weighting model of the library.           *)
(***************************************************************************)
EXTENDS WeightProtocol, FiniteSets, TLC, Json

CONSTANTS Depth, NFits, Sizes, Tails, Prn

VARIABLES s, h
vars == <<s, h>>

Init == s = PInit /\ h = <<>>
Step(o, t) == s' = t /\ h' = Append(h, o)

Fit      == \E f \in 1..NFits : Step([op |-> "fit", k |-> f], PFit(s, f))
Reset    == Step([op |-> "reset", k |-> 0], PReset(s))
Random   == \E n \in Sizes : Step([op |-> "random", k |-> n], PRandom(s, n))
RandomF  == s.fit # 0 /\ Step([op |-> "random", k |-> 0], PRandom(s, 1))
Complete == \E n \in Sizes : Step([op |-> "complete", k |-> n], PExtend(s, n))
\* how many sticks a tail needs is up to the draws: any extension
TailOp   == \E x \in Tails : \E m \in {1, 2} :
              Step([op |-> "tail", k |-> x], PExtend(s, IF m = 1 THEN 1 ELSE Len(s.sticks) + 1))
AssignLL == \E f \in 1..NFits : Step([op |-> "assignll", k |-> f], PExtend(s, f))
Assign   == Len(s.sticks) > 0 /\ Step([op |-> "rassign", k |-> 3], s)
WLL      == Len(s.sticks) > 0 /\ Step([op |-> "wll", k |-> 0], s)

Next == Len(h) < Depth /\ (Fit \/ Reset \/ Random \/ RandomF \/ Complete \/ TailOp
                           \/ AssignLL \/ Assign \/ WLL)
Spec == Init /\ [][Next]_vars

\* --- design properties -------------------------------------------------
\* sticks are never attributed to a fit that was not made
KnownFits == \A i \in DOMAIN s.sticks :
   s.sticks[i] # 0 => \E k \in DOMAIN h : h[k].op = "fit" /\ h[k].k = s.sticks[i]
\* after a draw every stick belongs to the latest fit
LatestFit == (h # <<>> /\ h[Len(h)].op = "random") =>
   \A i \in DOMAIN s.sticks : s.sticks[i] = s.fit
\* only draws shorten or rewrite a structure
AppendOnly == [][ h'[Len(h')].op # "random" =>
   /\ Len(s'.sticks) >= Len(s.sticks)
   /\ SubSeq(s'.sticks, 1, Len(s.sticks)) = s.sticks ]_vars
\* scoring and sampling do not touch the fit
FitOnly == [][ h'[Len(h')].op \notin {"fit", "reset"} => s'.fit = s.fit ]_vars
Emit == (Prn /\ Len(h) = Depth) => PrintT("HIST " \o ToJson(h))
=============================================================================
