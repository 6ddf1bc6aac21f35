-------------------------------- MODULE Frames --------------------------------
(* Frames, their homologous points and the links between them (C11).            *)
(* Points are given in eighths.  A frame whose points are an affine image of a   *)
(* common base carries that map in t ([a, b, k], see DicGrains); fit says that    *)
(* the points of all frames determine each other under the types in use.          *)
EXTENDS DicGrains
NewFrames == [pts |-> <<<<>>, <<>>, <<>>>>, t |-> <<<<>>, <<>>, <<>>>>, rel |-> {}, map |-> FALSE]     \* map: the DIC map (frame 2) has been linked to the EBSD map (frame 3)
Pairs(s) == {<<r.f, r.g>> : r \in s.rel}
Linked(s, f, g) == {<<f, g>>, <<g, f>>} \cap Pairs(s) # {}
TwoWay(s, f, g) == {<<f, g>>, <<g, f>>} \subseteq Pairs(s)
Type(s, f, g) == (CHOOSE r \in s.rel : {r.f, r.g} = {f, g}).type
Asked(s, f, g) == Linked(s, f, g) /\ ~TwoWay(s, f, g)
SetPts(s, f, pts, t) == [s EXCEPT !.pts[f] = pts, !.t[f] = t]
Link(s, f, g, type) == [s EXCEPT !.rel = {r \in s.rel : <<r.f, r.g>> # <<f, g>>} \cup {[f |-> f, g |-> g, type |-> type]}]
\* position in frame g of point p of frame f; p in units of 1/u
ComboDen(s, f, g, u) == s.t[g].k * AbsDet(s.t[f]) * u
Combo(s, f, g, p, u) ==
    LET tf == s.t[f]  tg == s.t[g]  ad == AbsDet(tf)
        v1 == tf.k * p[1] - tf.b[1] * u  v2 == tf.k * p[2] - tf.b[2] * u
        n == <<Sgn(Det(tf)) * (tf.a[4] * v1 - tf.a[2] * v2), Sgn(Det(tf)) * (tf.a[1] * v2 - tf.a[3] * v1)>>
    IN <<tg.a[1] * n[1] + tg.a[2] * n[2] + tg.b[1] * ad * u, tg.a[3] * n[1] + tg.a[4] * n[2] + tg.b[2] * ad * u>>
HasMap(s, f, g) == s.t[f] # <<>> /\ s.t[g] # <<>>
Abs(x) == IF x < 0 THEN -x ELSE x
\* a reported coordinate r/1000 equals n/d up to reporting error
Close(r, n, d) == Abs(r * d - n * 1000) <= 2 * d
=============================================================================
