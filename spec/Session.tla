------------------------------- MODULE Session -------------------------------
(***************************************************************************)
(* What an object of the library is, seen from outside.  Every value an     *)
(* object can show is named by a term: the history that determines it.      *)
(* Objects whose terms are equal must show equal values, and a call changes *)
(* only the terms it is said to change.  Terms start with a tag.            *)
(*   par   parameters        gen   where the generator of the object is     *)
(*   g, v  last Gibbs and variational fit     pri   priors in use           *)
(*   last  data of the last fit (queries without points use it)             *)
(*   on    data of the last Gibbs and variational fit (a warm start goes on  *)
(*         with the same data)                                              *)
(* A fit from cold is a function of the parameters, the data, its arguments *)
(* and the generator, and of nothing else.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences

None == <<"none">>
NewObj(par, gen) == [par |-> par, gen |-> gen, g |-> None, v |-> None, pri |-> None, last |-> None, on |-> [g |-> None, v |-> None]]
ColdPri(o, data) == <<"pri", o.par, data>>
ColdV(o, data, args, gen) == <<"vfit", o.par, data, args, gen>>
ColdG(o, data, args, gen) == <<"gfit", o.par, data, args, gen>>
\* init: does the initialization of a cold Gibbs fit use a variational fit?
GFitCold(o, data, args, init) ==
   LET g == ColdG(o, data, args, o.gen) IN
   [o EXCEPT !.g = g, !.gen = <<"after", g>>, !.pri = ColdPri(o, data), !.last = <<"data", data>>,
             !.on.g = <<"data", data>>, !.v = IF init THEN <<"vinit", g>> ELSE @,
             !.on.v = IF init THEN <<"data", data>> ELSE @]
GFitWarm(o, data, args) ==
   LET g == <<"gmore", o.g, data, args, o.gen, o.pri>> IN
   [o EXCEPT !.g = g, !.gen = <<"after", g>>, !.last = <<"data", data>>]
VFitCold(o, data, args) ==
   LET v == ColdV(o, data, args, o.gen) IN
   [o EXCEPT !.v = v, !.gen = <<"after", v>>, !.pri = ColdPri(o, data), !.last = <<"data", data>>,
             !.on.v = <<"data", data>>]
VFitWarm(o, data, args) ==
   LET v == <<"vmore", o.v, data, args, o.pri>> IN
   [o EXCEPT !.v = v, !.last = <<"data", data>>]
GFit(o, data, args, warm, init) == IF warm THEN GFitWarm(o, data, args) ELSE GFitCold(o, data, args, init)
VFit(o, data, args, warm) == IF warm THEN VFitWarm(o, data, args) ELSE VFitCold(o, data, args)
\* a query of the Gibbs (m = "g") or variational (m = "v") fit at the points pts ("": the data fitted)
CanGoOn(o, m, data) == IF m = "g" THEN o.on.g = <<"data", data>> ELSE o.on.v = <<"data", data>>
Fitted(o, m) == IF m = "g" THEN o.g # None ELSE o.v # None
Answer(o, m, q, pts) == <<"answer", q, IF m = "g" THEN o.g ELSE o.v,
                          IF pts = "" THEN o.last ELSE <<"points", pts>>>>
(* Calls that are refused, with their error.  A refused call changes no      *)
(* term: whatever the object shows and does next is as if it had not been    *)
(* made.                                                                     *)
(*   data    data of a type that is not accepted      points  the same in a query *)
(*   init    unknown initialization method            groups  no number of groups *)
(*   size    a size that is not an integer            assign  the same for assignments *)
(*   tail    a mass outside [0, 1)                    empty   no size and nothing fitted *)
(*   beyond  a draw of a finite structure fitted to groups it does not have    *)
Refusals == {"data", "points", "init", "groups", "size", "assign", "tail", "empty", "beyond"}
Refused(o, m, kind) ==
   CASE kind = "points" -> IF Fitted(o, m) THEN "TypeError" ELSE "NotFittedError"
     [] kind \in {"data", "size", "assign"} -> "TypeError"
     [] kind \in {"init", "groups"} -> "AttributeError"
     [] kind \in {"tail", "empty", "beyond"} -> "ValueError"
Refuse(o) == o
\* a weighting model alone: every call is added to its history
WCall(w, call) == <<"call", w, call>>
=============================================================================
