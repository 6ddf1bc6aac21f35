------------------------------- MODULE MC_Rotate -------------------------------
(* A map whose orientations are worked out on first use and then kept, turned and   *)
(* read in any order: what is read never depends on when it was first read.         *)
EXTENDS Ori
CONSTANTS Idx, N, MaxTurns
VARIABLES src, cache, have, turns, start
vars == <<src, cache, have, turns, start>>
None == <<>>
Init == /\ start \in [1..N -> Idx] /\ src = start /\ cache = None /\ have = FALSE /\ turns = 0
\* src stands for the Euler angles: only moved, never turned
Gen(s) == [i \in DOMAIN s |-> UnitF(Palette[s[i]])]
Read == ~have /\ have' = TRUE /\ cache' = Gen(src) /\ UNCHANGED <<src, turns, start>>
Rotate == /\ turns < MaxTurns /\ turns' = turns + 1 /\ src' = Rev(src) /\ have' = TRUE
          /\ cache' = Turn(IF have THEN cache ELSE Gen(src)) /\ UNCHANGED start
Next == Read \/ Rotate
Spec == Init /\ [][Next]_vars
RECURSIVE Turned(_, _)
Turned(img, k) == IF k = 0 THEN img ELSE Turned(Turn(img), k - 1)
Shown == IF have THEN cache ELSE Gen(src)
InvShown == \A i \in 1..N : NearUpTo(Shown[i], Turned(Gen(start), turns)[i], 2)
InvTwice == turns = 2 => src = start /\ \A i \in 1..N : NearUpTo(Shown[i], Gen(start)[i], 2)
=============================================================================
