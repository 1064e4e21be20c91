------------------------------- MODULE MCGibbs -------------------------------
(***************************************************************************)
(* Exhaustive exploration of fit histories of a sampler: every combination  *)
(* of lengths, burn-ins and thinnings, and every order of merit of the      *)
(* sweeps.  Completed fit histories are printed (HIST lines) for replay.    *)
(***************************************************************************)
EXTENDS Gibbs, TLC, Json, FiniteSets

CONSTANTS MaxT, MaxB, MaxS, MaxFits, Merits, Prn

VARIABLES g, cfg, i, h, merit
\* cfg: constants of the object; i: sweep of the current fit (0: idle);
\* h: fits made; merit: position -> merit, of the current chain
vars == <<g, cfg, i, h, merit>>
Cfgs == [T : 1..MaxT, B : 0..MaxB, s : 1..MaxS]
Init == /\ g = GInit /\ i = 0 /\ h = <<>> /\ merit = <<>>
        /\ cfg \in {c \in Cfgs : c.T > c.B /\ (c.T - c.B >= c.s \/ c.s <= 2)}
Start == /\ i = 0 /\ Len(h) < MaxFits
         /\ \/ \E m \in Merits : g' = GCold(g) /\ merit' = <<m>> /\ h' = Append(h, "cold")
            \/ g.fitted /\ UNCHANGED <<g, merit>> /\ h' = Append(h, "warm")
         /\ i' = 1 /\ UNCHANGED cfg
BestMerit == merit[g.best[2] + 1]
Sweep == /\ i > 0 /\ i <= cfg.T
         /\ \E m \in Merits : /\ g' = GSweep(g, i, cfg.B, cfg.s, m > BestMerit)
                              /\ merit' = Append(merit, m)
         /\ i' = i + 1 /\ UNCHANGED <<cfg, h>>
Finish == /\ i > cfg.T /\ g' = GDone(g) /\ i' = 0 /\ UNCHANGED <<cfg, h, merit>>
Next == Start \/ Sweep \/ Finish
Spec == Init /\ [][Next]_vars

\* number of fits of the current chain
NWarm == LET R == {k \in DOMAIN h : h[k] = "cold"} IN
         IF R = {} THEN 0 ELSE Len(h) + 1 - (CHOOSE k \in R : \A j \in R : j <= k)
\* --- design properties -------------------------------------------------
Counts == (i = 0 /\ h # <<>>) =>
   /\ g.pos = cfg.T * NWarm
   /\ Len(g.saved) = NWarm * NSaved(cfg.T, cfg.B, cfg.s)
   /\ Len(g.saved) >= 1
Positions == \A k \in DOMAIN g.saved :
   /\ g.saved[k][1] = g.chain
   /\ LET r == ((g.saved[k][2] - 1) % cfg.T) + 1 IN r > cfg.B /\ (r - cfg.B - 1) % cfg.s = 0
InOrder == \A k \in 1..(Len(g.saved) - 1) : g.saved[k][2] < g.saved[k + 1][2]
\* nothing that should have been saved is missing
Complete == (i = 0 /\ h # <<>>) => \A p \in 1..g.pos :
   IsSaved(((p - 1) % cfg.T) + 1, cfg.B, cfg.s) => \E k \in DOMAIN g.saved : g.saved[k][2] = p
\* the best is the first of largest merit among the initial state and all the sweeps
BestOK == g.chain > 0 => /\ g.best[1] = g.chain
                         /\ \A p \in DOMAIN merit : merit[p] <= BestMerit
                         /\ \A p \in 1..g.best[2] : merit[p] < BestMerit
Appends == [][ (g'.chain = g.chain) => /\ Len(g'.saved) >= Len(g.saved)
                                       /\ SubSeq(g'.saved, 1, Len(g.saved)) = g.saved ]_vars
Emit == (Prn /\ i = 0 /\ h # <<>>) => PrintT("HIST " \o ToJson([cfg |-> cfg, h |-> h]))
=============================================================================
