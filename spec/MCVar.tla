-------------------------------- MODULE MCVar --------------------------------
(***************************************************************************)
(* Exhaustive exploration of variational fit histories: any bounded         *)
(* non-decreasing objective, any sequence of cold and warm fits with any    *)
(* iteration limit and tolerance.  Histories are printed for replay.        *)
(***************************************************************************)
EXTENDS VarFit, TLC, Json, FiniteSets

CONSTANTS N, Top, MaxT, Tols, MaxFits, Prn
VARIABLES x, obj, h, it
\* obj: objective after each iteration of the sequence (it stays at obj[N] afterwards)
\* it: an ongoing fit <<warm, T, tol, done, previous objective (-1: none)>>, or <<>>
vars == <<x, obj, h, it>>
Obj(k) == IF k = 0 THEN 0 ELSE IF k > N THEN obj[N] ELSE obj[k]
Init == /\ x = XInit /\ h = <<>> /\ it = <<>>
        /\ obj \in {o \in [1..N -> 0..Top] : \A k \in 1..(N-1) : o[k] <= o[k + 1]}
\* the fit as the loop that carries it out
Start == /\ it = <<>> /\ Len(h) < MaxFits
         /\ \E w \in BOOLEAN, T \in 1..MaxT, tol \in Tols :
              /\ w => x.fitted
              /\ it' = <<w, T, tol, 0, -1, (IF w THEN x.pos ELSE 0), FALSE>>
              /\ h' = Append(h, [warm |-> w, T |-> T, tol |-> tol, x |-> x])
         /\ UNCHANGED <<x, obj>>
Iterate == /\ it # <<>> /\ it[4] < it[2] /\ ~it[7]
           /\ LET k == it[6] + 1  o == Obj(k) IN
              it' = <<it[1], it[2], it[3], it[4] + 1, o, k, it[5] >= 0 /\ o - it[5] <= it[3]>>
           /\ UNCHANGED <<x, obj, h>>
Finish == /\ it # <<>> /\ (it[4] = it[2] \/ it[7])
          /\ x' = [fitted |-> TRUE, pos |-> it[6], conv |-> it[7]]
          /\ it' = <<>> /\ UNCHANGED <<obj, h>>
Next == Start \/ Iterate \/ Finish
Spec == Init /\ [][Next]_vars
\* --- design properties ----------------------------------------------------
Last == h[Len(h)]
\* the loop does what XFit says
Agrees == (it = <<>> /\ h # <<>>) =>
   LET small(k) == Obj(k) - Obj(k - 1) <= Last.tol IN
   /\ x = XFit(Last.x, Last.warm, Last.T, small)
   /\ XFits(Last.x, Last.warm, Last.T, small, small) = {x}
\* convergence is only reported when the last iteration changed little, and then always
Truthful == (it = <<>> /\ h # <<>>) =>
   LET start == IF Last.warm THEN Last.x.pos ELSE 0
       n == x.pos - start
   IN /\ n >= 1 /\ n <= Last.T
      /\ x.conv => n >= 2 /\ Obj(x.pos) - Obj(x.pos - 1) <= Last.tol
      /\ ~x.conv => n = Last.T /\ (n >= 2 => Obj(x.pos) - Obj(x.pos - 1) > Last.tol)
      /\ \A k \in 2..(n - 1) : Obj(start + k) - Obj(start + k - 1) > Last.tol
\* a fit that goes on never loses ground
Forward == [][ (x'.fitted /\ x # x' /\ Last.warm) => Obj(x'.pos) >= Obj(x.pos) ]_vars
Emit == (Prn /\ it = <<>> /\ Len(h) = MaxFits) =>
   PrintT("HIST " \o ToJson([i \in DOMAIN h |-> [warm |-> h[i].warm, T |-> h[i].T, tol |-> h[i].tol]]))
=============================================================================
