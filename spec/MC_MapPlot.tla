------------------------------ MODULE MC_MapPlot ------------------------------
(* Every history of a few operations on plots of a small map.                    *)
EXTENDS MapPlot, Json
CONSTANTS MaxSteps, Gen
VARIABLES v, h, was
M == [w |-> 3, h |-> 2, n |-> 3, lab |-> <<1, 1, 2, 3, 0, 2>>, gb |-> <<0, 1, 0, 1, 0, 0>>, lines |-> <<>>,
      pp |-> << <<<<0, 0>>, <<1, 0>>>>, <<<<2, 0>>, <<2, 1>>>>, <<<<0, 1>>>> >>, adj |-> << <<1>>, <<0, 2>>, <<1>> >>, val |-> <<1, 2, 3, 4, 5, 6>>]
Np == IF Gen THEN 1..4 ELSE 1..2
Opens == {[op |-> "open", act |-> a, base |-> TRUE, gbs |-> g, dil |-> FALSE, col |-> 4, ids |-> i, cols |-> <<>>, al |-> -1, nums |-> FALSE] :
            a \in BOOLEAN, g \in {"", "pixel"}, i \in {<<>>, <<1>>}}
Zs == IF Gen THEN {<<0, 0>>} ELSE {<<x, y>> : x \in {0, 120, 200}, y \in {0, 60}}
Weight == [high |-> 4, bound |-> 2, lines |-> 2, points |-> 4, clear |-> 3, map |-> 2, click |-> 7, drag |-> 7, nums |-> 1, alpha |-> 1]
Rest == IF Gen THEN UNION {{[op |-> o, p |-> 1, z |-> i] : i \in 1..Weight[o]} : o \in DOMAIN Weight} ELSE
        {[op |-> "bound", p |-> p, col |-> 4, dil |-> d, al |-> 0] : p \in Np, d \in BOOLEAN}
        \cup {[op |-> "high", p |-> p, ids |-> i, cols |-> c, al |-> a, new |-> n] : p \in Np, i \in {<<0>>, <<2, 0>>, <<3>>}, c \in {<<>>, <<4>>, <<5, 4, 2>>}, a \in {-1, 30}, n \in BOOLEAN}
        \cup {[op |-> "points", p |-> p, at |-> <<a>>, upd |-> u, al |-> 0] : p \in Np, a \in {<<1, 1>>, <<0, 2>>}, u \in 0..2}
        \cup {[op |-> o, p |-> p, al |-> 0] : o \in {"clear", "map"}, p \in Np}
        \cup {[op |-> "click", p |-> p, z |-> z, inside |-> i, neigh |-> k, al |-> 0] : p \in Np, z \in Zs, i \in BOOLEAN, k \in BOOLEAN}
        \cup {[op |-> "alpha", v |-> 25]}
Init == v = NewView /\ h = <<>> /\ was = NewView
Do(e) == v' = (IF Gen THEN IF e.op = "open" THEN [v EXCEPT !.plots = Append(@, Empty(FALSE))] ELSE v ELSE StepV(M, v, e).st)
         /\ was' = v /\ h' = Append(h, e)
Next == Len(h) < MaxSteps /\ \/ Len(v.plots) < (IF Gen THEN 4 ELSE 2) /\ (Gen => Len(h) < 2 \/ Len(h) % 4 = 3) /\ \E e \in Opens : Do(e)
                             \/ \E e \in Rest : (IF e.op = "alpha" THEN TRUE ELSE Can(v, e)) /\ Do(e)
Spec == Init /\ [][Next]_<<v, h, was>>
View == <<v, was, Len(h), IF h = <<>> THEN [op |-> ""] ELSE h[Len(h)]>>
E0 == IF h = <<>> THEN [op |-> ""] ELSE h[Len(h)]
Vis(im) == {k \in DOMAIN im.px : im.px[k] # 0}
InvOther == \A q \in DOMAIN was.plots : (E0.op = "open" \/ E0.op = "alpha" \/ E0.p # q) => v.plots[q] = was.plots[q]
InvHl == \A q \in DOMAIN v.plots : v.plots[q].hl # 0 => v.plots[q].imgs[v.plots[q].hl].k = "hl" /\ \A i \in 1..(v.plots[q].hl - 1) : v.plots[q].imgs[i].k # "hl"
InvPts == \A q \in DOMAIN v.plots : LET p == v.plots[q] IN \A i \in DOMAIN p.pts : p.colls[p.pts[i]].k = "pts" /\ \A j \in DOMAIN p.pts : p.pts[i] = p.pts[j] => i = j
InvClick == E0.op = "click" => LET g == GrainAt(M, E0.z) p == v.plots[E0.p] IN
    IF ~E0.inside \/ g = 0 THEN v = was
    ELSE v.sel = g /\ p.imgs[p.hl].px[M.pp[g][1][2] * 3 + M.pp[g][1][1] + 1] = 1000 + v.al
         /\ (~E0.neigh => Vis(p.imgs[p.hl]) = {k \in 1..6 : M.lab[k] = g})
InvNew == E0.op = "high" /\ Known(M, E0.ids) => LET p == v.plots[E0.p] o == was.plots[E0.p] IN
    /\ Len(p.imgs) = Len(o.imgs) + (IF o.hl = 0 \/ E0.new THEN 1 ELSE 0)
    /\ \A i \in DOMAIN o.imgs : (i # o.hl \/ E0.new) => p.imgs[i] = o.imgs[i]
    /\ Vis(p.imgs[IF o.hl = 0 \/ E0.new THEN Len(p.imgs) ELSE p.hl]) = {k \in 1..6 : M.lab[k] - 1 \in Ran(E0.ids)}
InvBad == E0.op = "high" /\ ~Known(M, E0.ids) => v = was
InvClear == E0.op = "clear" => IF was.plots[E0.p].act THEN v.plots[E0.p] = Empty(TRUE) ELSE v = was
InvBase == \A q \in DOMAIN v.plots : \A i \in DOMAIN v.plots[q].imgs : v.plots[q].imgs[i].k = "map" => v.plots[q].imgs[i] = BaseImg(M)
InvMap == E0.op = "map" => v.plots[E0.p] = [was.plots[E0.p] EXCEPT !.imgs = Append(@, BaseImg(M))]
InvTwo == \A g \in 0..2 : First(M, g) \cap Second(M, g) = {} /\ g \notin Second(M, g) /\ \A k \in First(M, g) : g \in First(M, k)
\* samples: the ends are the values at the ends
InvEnds == \A n \in 2..5 : SampleAt(M, <<0, 0, 200, 100>>, 0, n) = 100 /\ SampleAt(M, <<0, 0, 200, 100>>, n - 1, n) = 600
InvCount == \A x \in {0, 1, 100, 101, 199, 200, 300} : \E n \in 2..5 : CountOk(<<0, 0, x, 0>>, n)
Stop == Gen /\ Len(h) = MaxSteps => PrintT("TRACE " \o ToJson(h))
=============================================================================
