--------------------------- MODULE Trace_DicGrains ---------------------------
(* Judges the grains a DIC map reports (C10).                                    *)
EXTENDS DicGrains, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, l
no(name, b) == IF b THEN {} ELSE {name}
Want(r) == IF r.alg = "warp" THEN WarpLabels(r) ELSE FloodLabels(r.w, r.h, Ran(r.bnd), r.min)
GrainBad(r, i) ==
    LET g == r.gr[i]
        want == {p \in Pix(r.w, r.h) : At(r.lab, r.w, p) = i}
    IN no("grain-id", g.id = i - 1) \cup no("grain-points", Ran(g.pts) = want) \cup no("grain-points-repeated", NoDup(g.pts) /\ g.len = Len(g.pts))
       \cup no("grain-data", g.um = [k \in DOMAIN g.pts |-> Raster(r.w, g.pts[k])])
       \cup no("grain-ebsd-map", g.emap)
       \cup (IF r.alg = "warp" THEN no("grain-link", g.eg = WarpLinks(r)[i])
             ELSE IF TiesBack(r.t, r.ew, r.eh) THEN {} ELSE no("grain-link", g.eg \in LinkOf(r, r.lab, i)))
       \cup no("grain-link-object", g.same) \cup no("grain-phase", g.eg > 0 => g.phase)
Bad(r) ==
    IF r.op = "refuse" THEN no("not-refused", ~r.ok)
    ELSE IF ~r.ok THEN {"failed"}
    ELSE IF Len(r.lab) # r.w * r.h THEN {"grain-map-shape"}
    ELSE IF r.alg = "warp" /\ TiesTo(r.t, r.w, r.h) THEN {}
    ELSE LET n == Cardinality(Pos(Want(r))) IN
         no("labels", r.lab = Want(r)) \cup
         (IF Len(r.gr) # n \/ r.n # n THEN {"grain-count"}
          ELSE IF r.lab = Want(r) THEN UNION {GrainBad(r, i) : i \in DOMAIN r.gr} ELSE {})
         \cup no("boundaries-of-other-map", Ran(r.bnd) = Ran(r.bnd2))
TraceInit == c \in 1..Len(Cases) /\ l = 0
TraceNext == l = 0 /\ l' = 1 /\ c' = c
             /\ LET b == Bad(Cases[c]) IN b # {} => PrintT("FAIL " \o ToJson([case |-> c, l |-> 1, bad |-> b]))
TraceSpec == TraceInit /\ [][TraceNext]_<<c, l>>
=============================================================================
