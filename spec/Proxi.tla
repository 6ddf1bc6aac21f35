-------------------------------- MODULE Proxi --------------------------------
(* Distance to the nearest boundary point; boundary points sit half a pixel to   *)
(* the lower right of their pixel.  Squared distances, times four.               *)
EXTENDS Grid
Cap4 == 4000000
Sq(x) == x * x
Dist4(p, b) == Sq(2*p[1] - 2*b[1] - 1) + Sq(2*p[2] - 2*b[2] - 1)
Near4(pts, p) == LET s == {Dist4(p, b) : b \in pts} \cup {Cap4} IN CHOOSE m \in s : \A x \in s : m <= x
=============================================================================
