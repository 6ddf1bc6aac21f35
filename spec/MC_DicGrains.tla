---------------------------- MODULE MC_DicGrains ----------------------------
(* Flood filling of a DIC map for every boundary image of a small map, in any   *)
(* order of expansion; its outcome is the declarative labelling.  And warping   *)
(* of every label image under every integer offset.                             *)
EXTENDS DicGrains
CONSTANTS W, H, MinSizes
VARIABLES B, min, lab, edge, cur, idx, pc
vars == <<B, min, lab, edge, cur, idx, pc>>
P == Pix(W, H)
Free == {p \in P : lab[p] = 0}
Init == /\ B \in SUBSET P /\ min \in MinSizes
        /\ lab = [p \in P |-> IF p \in B THEN -1 ELSE 0] /\ edge = {} /\ cur = {} /\ idx = 1 /\ pc = "seed"
Seed == /\ pc = "seed" /\ Free # {}
        /\ \E p \in Free : (\A q \in Free : Raster(W, p) <= Raster(W, q)) /\ lab' = [lab EXCEPT ![p] = idx] /\ edge' = {p} /\ cur' = {p}
        /\ pc' = "fill" /\ UNCHANGED <<B, min, idx>>
Expand == /\ pc = "fill" /\ edge # {}
          /\ \E p \in edge :
               LET nb == Open(W, H, {}, {}, p)
                   new == {q \in nb : lab[q] = 0}
                   abs == {q \in nb : lab[q] = -1 /\ (q[1] > p[1] \/ q[2] > p[2])}
               IN /\ lab' = [q \in P |-> IF q \in new \cup abs THEN idx ELSE lab[q]]
                  /\ cur' = cur \cup new \cup abs /\ edge' = (edge \ {p}) \cup new
          /\ UNCHANGED <<B, min, idx, pc>>
Close == /\ pc = "fill" /\ edge = {}
         /\ IF Cardinality(cur) < min THEN lab' = [q \in P |-> IF q \in cur THEN -2 ELSE lab[q]] /\ idx' = idx
            ELSE lab' = lab /\ idx' = idx + 1
         /\ cur' = {} /\ pc' = "seed" /\ UNCHANGED <<B, min, edge>>
Next == Seed \/ Expand \/ Close
Spec == Init /\ [][Next]_vars
Done == pc = "seed" /\ Free = {}
InvFlood == Done => \A p \in P : lab[p] = At(FloodLabels(W, H, B, min), W, p)
\* nothing is lost: a pixel left as boundary has no filled pixel to its left or above
InvLeft == Done => \A p \in P : lab[p] = -1 => p \in B /\ \A q \in P \ B : ~(q = <<p[1]-1, p[2]>> \/ q = <<p[1], p[2]-1>>)
\* regions keep their raster order
InvOrder == Done => \A p \in P : lab[p] > 0 => lab[p] < idx
=============================================================================
