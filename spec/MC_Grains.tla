------------------------------ MODULE MC_Grains ------------------------------
(* Design of grain finding: seeds in raster order, flood fill in any order,     *)
(* small regions discarded.  Explored for every boundary layout and indexing of *)
(* a small map; the outcome must be the declarative labelling of Grid.          *)
EXTENDS Grid, Json
CONSTANTS W, H, MinSizes, Users       \* Users: boundaries supplied independently of the indexing
VARIABLES ix, bx, by, min, lab, left, edge, cur, idx, pc
vars == <<ix, bx, by, min, lab, left, edge, cur, idx, pc>>
P == Pix(W, H)
EX == {p \in P : p[1] < W - 1}
EY == {p \in P : p[2] < H - 1}
PhX(i) == {p \in EX : (p \in i) # (<<p[1]+1, p[2]>> \in i)}
PhY(i) == {p \in EY : (p \in i) # (<<p[1], p[2]+1>> \in i)}
Init == /\ ix \in SUBSET P
        /\ \E sx \in SUBSET EX, sy \in SUBSET EY : PhX(ix) \subseteq sx /\ PhY(ix) \subseteq sy /\ bx = sx /\ by = sy
        /\ min \in MinSizes
        /\ lab = [p \in P |-> 0] /\ left = ix /\ edge = {} /\ cur = {} /\ idx = 1 /\ pc = "seed"
Seed == /\ pc = "seed" /\ left # {}
        /\ \E p \in left : (\A q \in left : Raster(W, p) <= Raster(W, q))
              /\ lab' = [lab EXCEPT ![p] = idx] /\ left' = left \ {p} /\ edge' = {p} /\ cur' = {p}
        /\ pc' = "fill" /\ UNCHANGED <<ix, bx, by, min, idx>>
Expand == /\ pc = "fill" /\ edge # {}
          /\ \E p \in edge :
               LET new == {q \in Open(W, H, bx, by, p) : lab[q] = 0}
               IN /\ lab' = [q \in P |-> IF q \in new THEN idx ELSE lab[q]]
                  /\ left' = left \ new /\ cur' = cur \cup new /\ edge' = (edge \ {p}) \cup new
          /\ UNCHANGED <<ix, bx, by, min, idx, pc>>
Close == /\ pc = "fill" /\ edge = {}
         /\ IF Cardinality(cur) < min
            THEN lab' = [q \in P |-> IF q \in cur THEN -2 ELSE lab[q]] /\ idx' = idx
            ELSE lab' = lab /\ idx' = idx + 1
         /\ cur' = {} /\ pc' = "seed" /\ UNCHANGED <<ix, bx, by, min, left, edge>>
Next == Seed \/ Expand \/ Close
Spec == Init /\ [][Next]_vars

Done == pc = "seed" /\ left = {}
InvLabels == Done => LET r == Regions(W, H, bx, by, ix) ls == Labels(W, H, r, min) IN \A p \in P : lab[p] = At(ls, W, p)
InvInMap == \A p \in cur : p \in P
InvPartition == \A p \in P : (lab[p] = 0) <=> (p \notin ix \/ p \in left)
InvContacts == Done =>
    LET ls == [k \in 1..(W*H) |-> lab[<<(k-1) % W, (k-1) \div W>>]]  cs == Contacts(W, H, ls, bx, by)
    IN \A c \in cs : Interior(W, H, c[2]) /\ InMap(W, H, Beyond(c[1], c[2])) /\ c[3] # c[4] /\ c[3] > 0 /\ c[4] > 0
=============================================================================
