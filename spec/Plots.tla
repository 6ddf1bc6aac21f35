-------------------------------- MODULE Plots --------------------------------
(* What plots of named data show (C31).  A datum d: comps (components, each an    *)
(* image in raster order), order, dims (component dimensions), dflt (component    *)
(* shown by default), clabel, unit.  A component c: [k, v, s] of kind none, int,   *)
(* tup (indices v) or str (name s).                                              *)
EXTENDS GrainData
NaN == -99999
Comp(d, c) == IF c.k = "none" THEN d.dflt ELSE c
NormNames == {"norm", "NORM", "Norm"}
Fits(d, c) == LET q == Comp(d, c) IN
    CASE q.k = "none" -> d.order = 0
      [] q.k \in {"int", "tup"} -> Len(q.v) = d.order /\ \A i \in DOMAIN q.v : q.v[i] \in 0..(d.dims[i] - 1)
      [] q.k = "str" -> q.s \in NormNames /\ d.order \in {1, 2}
\* number of a component: last index varies fastest
Flat(d, v) == 1 + (CASE Len(v) = 0 -> 0 [] Len(v) = 1 -> v[1] [] Len(v) = 2 -> v[1] * d.dims[2] + v[2])
Bare(d, c) == Comp(d, c).k # "str"
Shown(d, c) == LET q == Comp(d, c) IN
    IF q.k # "str" THEN d.comps[Flat(d, q.v)]
    ELSE [i \in DOMAIN d.comps[1] |-> IF \E j \in DOMAIN d.comps : d.comps[j][i] = NaN THEN NaN
                                      ELSE SumSeq([j \in DOMAIN d.comps |-> d.comps[j][i] * d.comps[j][i]])]
\* r shows the value v: itself, or a hundred times the root of the sum of squares
Same(bare, r, v) == IF v = NaN \/ r = NaN THEN r = v
                    ELSE IF bare THEN r = v ELSE r >= 0 /\ (r - 1) * (r - 1) * (IF r = 0 THEN 0 ELSE 1) <= v * 10000 /\ (r + 1) * (r + 1) >= v * 10000
SameAll(bare, rs, vs) == Len(rs) = Len(vs) /\ \A i \in DOMAIN vs : Same(bare, rs[i], vs[i])
RECURSIVE Digits(_)
Digits(v) == IF v = <<>> THEN "" ELSE ToString(Head(v) + 1) \o Digits(Tail(v))
BarLabel(d, c) == LET q == Comp(d, c) IN
    IF d.clabel = "" THEN ""
    ELSE d.clabel \o (IF q.k = "none" THEN "" ELSE IF q.k = "str" THEN " (" \o q.s \o ")" ELSE " (" \o Digits(q.v) \o ")")
                  \o (IF d.unit = "" THEN "" ELSE " (" \o d.unit \o ")")
\* largest factor over the selected planes and directions (selections empty: all), NaN if one does not exist
SelPl(sf, pl) == IF pl = <<>> THEN {k : k \in DOMAIN sf} ELSE {pl[i] + 1 : i \in DOMAIN pl}
SelDi(sf, p, pl, di) == IF pl = <<>> \/ di = <<>> THEN DOMAIN sf[p] ELSE {di[i] + 1 : i \in DOMAIN di}
SelOk(sf, pl, di) == \A p \in SelPl(sf, pl) : p \in DOMAIN sf /\ \A k \in SelDi(sf, p, pl, di) : k \in DOMAIN sf[p]
Best(sf, pl, di) == LET s == UNION {{sf[p][k] : k \in SelDi(sf, p, pl, di)} : p \in SelPl(sf, pl)} IN CHOOSE x \in s : \A y \in s : y <= x
\* dilation by the direct neighbours
Dilate(w, h, v) == [k \in DOMAIN v |->
    LET p == << (k-1) % w, (k-1) \div w >>
        near == {p, <<p[1]+1, p[2]>>, <<p[1]-1, p[2]>>, <<p[1], p[2]+1>>, <<p[1], p[2]-1>>}
    IN IF \E q \in near : InMap(w, h, q) /\ At(v, w, q) # 0 THEN 1 ELSE 0]
=============================================================================
