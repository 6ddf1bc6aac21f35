------------------------------ MODULE Gen_Ebsd ------------------------------
(* Every small map: shape, phases and rotation angles of the pixels.            *)
EXTENDS Grid, Json
CONSTANTS Shapes, Phs, Angs, Tols, Mins
VARIABLES m
\* shapes are given as 10 * width + height
Init == \E s \in Shapes :
           LET w == s \div 10  h == s % 10 IN
           \E ph \in [1..(w*h) -> Phs], an \in [1..(w*h) -> Angs], t \in Tols, mn \in Mins :
             /\ \A i \in 1..(w*h) : ph[i] = 0 => an[i] = 0
             /\ m = [w |-> w, h |-> h, ph |-> ph, ang |-> an, tol2 |-> t, min |-> mn]
Next == UNCHANGED m
Spec == Init /\ [][Next]_m
Out == PrintT("TRACE " \o ToJson(m))
=============================================================================
