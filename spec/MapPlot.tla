-------------------------------- MODULE MapPlot --------------------------------
(* Layers of map plots and interactive selection (C32).  M: [w, h, n, lab, gb,     *)
(* pp, adj, val]: size, number of grains, labels, boundary image, pixels of each   *)
(* grain, neighbours of each grain (indices from 0) and the plotted values.        *)
(* State: selected grain (0: none), default alpha (hundredths) and the plots: act  *)
(* (interactive), imgs and colls (layers in drawing order), hl (image of the       *)
(* highlights, 0: none), pts (point layers), nums (grains numbered), arrow.        *)
(* An image is [k, px]: values of a "map", colour codes of boundaries "gb" (0: not *)
(* drawn), and colour codes times 1000 plus alpha of highlights "hl".              *)
EXTENDS GrainData
NewView == [sel |-> 0, al |-> 60, plots |-> <<>>]
Empty(act) == [act |-> act, imgs |-> <<>>, colls |-> <<>>, hl |-> 0, pts |-> <<>>, nums |-> FALSE, arrow |-> <<>>]
\* pixels are centred on whole numbers
Under(z) == <<(z[1] + 50) \div 100, (z[2] + 50) \div 100>>
GrainAt(M, z) == LET p == Under(z) v == IF InMap(M.w, M.h, p) THEN At(M.lab, M.w, p) ELSE 0 IN IF v > 0 THEN v ELSE 0
DilateB(M, v) == [k \in DOMAIN v |->
    LET p == << (k-1) % M.w, (k-1) \div M.w >>
        near == {p, <<p[1]+1, p[2]>>, <<p[1]-1, p[2]>>, <<p[1], p[2]+1>>, <<p[1], p[2]-1>>}
    IN IF \E q \in near : InMap(M.w, M.h, q) /\ At(v, M.w, q) # 0 THEN 1 ELSE 0]
BaseImg(M) == [k |-> "map", px |-> M.val]
GbImg(M, col, dil) == [k |-> "gb", px |-> LET b == IF dil THEN DilateB(M, M.gb) ELSE M.gb IN [i \in DOMAIN b |-> col * b[i]]]
\* colour of the i-th grain: the i-th one given, else the last; white (code 1) if none are given
ColOf(cols, i) == IF cols = <<>> THEN 1 ELSE IF i > Len(cols) THEN cols[Len(cols)] ELSE cols[i]
HlImg(M, ids, cols, al) == [k |-> "hl", px |-> IF al = 0 THEN Const(0, M.w * M.h)
                            ELSE Fill(M.pp, ids, [i \in DOMAIN ids |-> 1000 * ColOf(cols, i) + al], M.w, M.h, 0)]
WithHl(p, im, new) == IF p.hl = 0 THEN [p EXCEPT !.imgs = Append(@, im), !.hl = Len(p.imgs) + 1]
                      ELSE IF new THEN [p EXCEPT !.imgs = Append(@, im)]
                      ELSE [p EXCEPT !.imgs[p.hl] = im]
Known(M, ids) == \A i \in DOMAIN ids : ids[i] \in 0..(M.n - 1)
\* ---- neighbours: the grain white, its neighbours yellow (2), theirs green (3)
First(M, g) == Ran(M.adj[g + 1])
Second(M, g) == (UNION {First(M, k) : k \in First(M, g)}) \ (First(M, g) \cup {g})
NeighImg(M, g, al) == [k |-> "hl", px |-> [i \in 1..(M.w * M.h) |->
    LET v == M.lab[i] - 1 c == IF v < 0 THEN 0 ELSE IF v = g THEN 1 ELSE IF v \in First(M, g) THEN 2 ELSE IF v \in Second(M, g) THEN 3 ELSE 0
    IN IF c = 0 \/ al = 0 THEN 0 ELSE 1000 * c + al]]
Can(v, e) == e.p \in DOMAIN v.plots
StepV(M, v, e) ==
    LET p == IF e.op = "open" THEN Empty(e.act) ELSE IF e.op \in {"alpha"} THEN Empty(FALSE) ELSE v.plots[e.p]
        set(q) == [st |-> [v EXCEPT !.plots[e.p] = q], ok |-> TRUE]
        no == [st |-> v, ok |-> FALSE]
        al == IF e.op = "alpha" THEN 0 ELSE IF e.al = -1 THEN v.al ELSE e.al
    IN CASE e.op = "open" ->
              LET a == IF e.base THEN [p EXCEPT !.imgs = <<BaseImg(M)>>] ELSE p
                  b == IF e.gbs = "pixel" THEN [a EXCEPT !.imgs = Append(@, GbImg(M, e.col, e.dil))]
                       ELSE IF e.gbs = "line" THEN [a EXCEPT !.colls = Append(@, [k |-> "lines", col |-> e.col, at |-> M.lines])] ELSE a
                  c == IF e.ids = <<>> THEN b ELSE WithHl(b, HlImg(M, e.ids, e.cols, al), FALSE)
                  d == [c EXCEPT !.nums = e.nums]
              IN IF Known(M, e.ids) THEN [st |-> [v EXCEPT !.plots = Append(@, d)], ok |-> TRUE] ELSE no
         [] e.op = "map" -> set([p EXCEPT !.imgs = Append(@, BaseImg(M))])       \* the datum drawn again on a plot given
         [] e.op = "bound" -> set([p EXCEPT !.imgs = Append(@, GbImg(M, e.col, e.dil))])
         [] e.op = "lines" -> set([p EXCEPT !.colls = Append(@, [k |-> "lines", col |-> e.col, at |-> M.lines])])
         [] e.op = "high" -> IF ~Known(M, e.ids) THEN no ELSE set(WithHl(p, HlImg(M, e.ids, e.cols, al), e.new))
         [] e.op = "points" -> LET im == [k |-> "pts", col |-> 0, at |-> e.at] IN
              IF p.pts = <<>> \/ e.upd = 0 THEN set([p EXCEPT !.colls = Append(@, im), !.pts = Append(@, Len(p.colls) + 1)])
              ELSE IF e.upd > Len(p.pts) THEN no ELSE set([p EXCEPT !.colls[p.pts[e.upd]] = im])
         [] e.op = "nums" -> set([p EXCEPT !.nums = TRUE])
         [] e.op = "clear" -> IF ~p.act THEN no ELSE set(Empty(TRUE))
         [] e.op = "alpha" -> [st |-> [v EXCEPT !.al = e.v], ok |-> TRUE]
         [] e.op = "click" -> LET g == GrainAt(M, e.z) IN
              IF ~e.inside \/ g = 0 THEN [st |-> v, ok |-> TRUE]
              ELSE [st |-> [v EXCEPT !.sel = g, !.plots[e.p] = WithHl(p, IF e.neigh THEN NeighImg(M, g - 1, v.al) ELSE HlImg(M, <<g - 1>>, <<>>, v.al), FALSE)], ok |-> TRUE]
         [] e.op = "drag" -> set([p EXCEPT !.arrow = e.z])
\* ---- profile along a line from z[1..2] to z[3..4] (hundredths): n samples
Sq(x) == x * x
Clamp(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
\* a hundred times the value at sample k of n, linearly interpolated
SampleAt(M, z, k, n) ==
    LET D == 100 * (n - 1)
        X == Clamp(z[1] * (n - 1) + (z[3] - z[1]) * k, 0, (M.w - 1) * D)
        Y == Clamp(z[2] * (n - 1) + (z[4] - z[2]) * k, 0, (M.h - 1) * D)
        i == X \div D  j == Y \div D  fx == X % D  fy == Y % D
        i1 == Clamp(i + 1, 0, M.w - 1)  j1 == Clamp(j + 1, 0, M.h - 1)
        top == At(M.val, M.w, <<i, j>>) * (D - fx) + At(M.val, M.w, <<i1, j>>) * fx
        bot == At(M.val, M.w, <<i, j1>>) * (D - fx) + At(M.val, M.w, <<i1, j1>>) * fx
    IN ((((top * (D - fy) + bot * fy) \div D) * 100) \div D)
\* the step along the line is as long as possible but at most a pixel
CountOk(z, n) == LET L2 == Sq(z[3] - z[1]) + Sq(z[4] - z[2]) IN
    Sq(100 * (n - 1)) >= L2 - 2 /\ (n >= 2) /\ (n = 2 \/ Sq(100 * (n - 2)) <= L2 + 2)
=============================================================================
