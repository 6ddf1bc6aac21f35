------------------------------- MODULE MC_Proxi -------------------------------
(* Proxigram design: boundary points taken in any order, in batches of any size; *)
(* only the minimum of a batch is kept.  The outcome is the declarative distance. *)
EXTENDS Proxi
CONSTANTS W, H, MaxPts, Batches
VARIABLES pts, left, batch, trial, best, pc
vars == <<pts, left, batch, trial, best, pc>>
P == Pix(W, H)
Init == /\ pts \in {s \in SUBSET P : Cardinality(s) <= MaxPts} /\ left = pts /\ batch \in Batches
        /\ trial = <<>> /\ best = [p \in P |-> Cap4] /\ pc = "run"
MinTrial(p) == LET s == {trial[i][p] : i \in DOMAIN trial} \cup {best[p]} IN CHOOSE m \in s : \A x \in s : m <= x
Take == /\ pc = "run" /\ left # {} /\ Len(trial) < batch
        /\ \E b \in left : trial' = Append(trial, [p \in P |-> Dist4(p, b)]) /\ left' = left \ {b}
        /\ UNCHANGED <<pts, batch, best, pc>>
Flush == /\ pc = "run" /\ Len(trial) = batch
         /\ best' = [p \in P |-> MinTrial(p)] /\ trial' = <<>> /\ UNCHANGED <<pts, left, batch, pc>>
Finish == /\ pc = "run" /\ left = {} /\ best' = [p \in P |-> MinTrial(p)] /\ trial' = <<>> /\ pc' = "done"
          /\ UNCHANGED <<pts, left, batch>>
Next == Take \/ Flush \/ Finish
Spec == Init /\ [][Next]_vars
InvDone == pc = "done" => \A p \in P : best[p] = Near4(pts, p)
=============================================================================
