------------------------------ MODULE Trace_Ebsd ------------------------------
(* Judges what an EBSD map reports: boundaries (C04), grains (C05) and the      *)
(* neighbour network (C07).  Each is judged relative to the observed inputs of   *)
(* that stage, so that a fault is reported where it lies.                        *)
EXTENDS Grid, Sym, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
PID == IOEnv.PID
VARIABLES c, l

\* ---------------------------------------------------------------- C04
PhDiff(r, p, q) == At(r.ph, r.w, p) # At(r.ph, r.w, q)
Must(r, p, q) == PhDiff(r, p, q) \/
    IF r.mode = "z" THEN 2 * ZDis(r.sym, At(r.ori, r.w, p), At(r.ori, r.w, q)) > r.tol2
    ELSE DisoriMust(r.sym, Palette[At(r.ori, r.w, p)], Palette[At(r.ori, r.w, q)], r.tol2 \div 2)
May(r, p, q) == PhDiff(r, p, q) \/
    IF r.mode = "z" THEN 2 * ZDis(r.sym, At(r.ori, r.w, p), At(r.ori, r.w, q)) >= r.tol2
    ELSE DisoriMay(r.sym, Palette[At(r.ori, r.w, p)], Palette[At(r.ori, r.w, q)], r.tol2 \div 2)
XPairs(r) == {p \in Pix(r.w, r.h) : p[1] < r.w - 1}
YPairs(r) == {p \in Pix(r.w, r.h) : p[2] < r.h - 1}
E(p) == <<p[1]+1, p[2]>>
S(p) == <<p[1], p[2]+1>>
Bad04(r) ==
    LET gx == Ran(r.gx) gy == Ran(r.gy) px == Ran(r.px) py == Ran(r.py)
        chk(name, b) == IF b THEN {} ELSE {name}
    IN chk("grain-boundary-missing-x", \A p \in XPairs(r) : Must(r, p, E(p)) => p \in gx)
       \cup chk("grain-boundary-missing-y", \A p \in YPairs(r) : Must(r, p, S(p)) => p \in gy)
       \cup chk("grain-boundary-spurious-x", \A p \in gx : p \in XPairs(r) /\ May(r, p, E(p)))
       \cup chk("grain-boundary-spurious-y", \A p \in gy : p \in YPairs(r) /\ May(r, p, S(p)))
       \cup chk("phase-boundary-x", px = {p \in XPairs(r) : PhDiff(r, p, E(p))})
       \cup chk("phase-boundary-y", py = {p \in YPairs(r) : PhDiff(r, p, S(p))})
       \cup chk("points", Ran(r.gp) = gx \cup gy /\ Ran(r.pp) = px \cup py)
       \cup chk("image-x", Ran(r.gix) = gx /\ Ran(r.pix) = px)
       \cup chk("image-y", Ran(r.giy) = gy /\ Ran(r.piy) = py)
       \cup chk("image", Ran(r.gi) = gx \cup gy /\ Ran(r.pi) = px \cup py)
       \cup chk("lines", Ran(r.gl) = {LineX(p) : p \in gx} \cup {LineY(p) : p \in gy} /\ NoDup(r.gl))
       \cup chk("phase-lines", Ran(r.pl) = {LineX(p) : p \in px} \cup {LineY(p) : p \in py} /\ NoDup(r.pl))
       \cup chk("image-shape", r.shapes = <<r.h, r.w>>)

\* ---------------------------------------------------------------- C05
Indexed(r) == {p \in Pix(r.w, r.h) : At(r.ph, r.w, p) # 0}
GrainBad(r, i) ==
    LET g == r.gr[i]
        want == {p \in Pix(r.w, r.h) : At(r.lab, r.w, p) = i}
        phs == {At(r.ph, r.w, p) : p \in want}
    IN (IF g.id # i - 1 THEN {"grain-id"} ELSE {})
       \cup (IF Ran(g.pts) # want THEN {"grain-points"} ELSE {})
       \cup (IF ~NoDup(g.pts) \/ g.len # Len(g.pts) THEN {"grain-points-repeated"} ELSE {})
       \cup (IF Cardinality(phs) = 1 /\ g.phase # (CHOOSE x \in phs : TRUE) - 1 THEN {"grain-phase"} ELSE {})
       \cup (IF Cardinality(phs) = 1 /\ ~g.phobj THEN {"grain-phase-object"} ELSE {})
       \cup (IF Cardinality(phs) > 1 /\ g.phase # -1 THEN {"grain-mixed-phase"} ELSE {})
Bad05(r) ==
    LET regs == Regions(r.w, r.h, Ran(r.gx), Ran(r.gy), Indexed(r))
        want == Labels(r.w, r.h, regs, r.min)
        n == Len(Big(regs, r.min))
    IN (IF Len(r.lab) # r.w * r.h THEN {"grain-map-shape"}
        ELSE (IF r.lab # want THEN {"grain-labels"} ELSE {})
             \cup (IF Len(r.gr) # n \/ r.n # n THEN {"grain-count"} ELSE {})
             \cup UNION {GrainBad(r, i) : i \in 1..Len(r.gr)})

\* ---------------------------------------------------------------- C07
EdgeBad(r, cs, e) ==
    LET a == e.g1 + 1  b == e.g2 + 1
        mine == {x \in cs : {x[3], x[4]} = {a, b}}
        pts(k) == {x[2] : x \in {y \in mine : y[1] = k}}
        own(k) == [i \in DOMAIN (IF k = 0 THEN e.x ELSE e.y) |-> At(r.lab, r.w, (IF k = 0 THEN e.x ELSE e.y)[i]) = a]
        pair(k, p) == IF At(r.lab, r.w, p) = a THEN <<p, Beyond(k, p)>> ELSE <<Beyond(k, p), p>>
    IN IF {e.n1, e.n2} # {e.g1, e.g2} THEN {"segment-grains"}
       ELSE IF Ran(e.x) # pts(0) \/ Ran(e.y) # pts(1) THEN {"segment-points"}
       ELSE (IF ~NoDup(e.x) \/ ~NoDup(e.y) THEN {"segment-points-repeated"} ELSE {})
            \cup (IF e.px # [i \in DOMAIN e.x |-> pair(0, e.x[i])] \/ e.py # [i \in DOMAIN e.y |-> pair(1, e.y[i])] THEN {"segment-pairs"} ELSE {})
            \cup (IF e.ox # own(0) \/ e.oy # own(1) THEN {"segment-owners"} ELSE {})
            \cup (IF e.len # Len(e.x) + Len(e.y) THEN {"segment-length"} ELSE {})
            \cup (IF Ran(e.lines) # {LineX(p) : p \in Ran(e.x)} \cup {LineY(p) : p \in Ran(e.y)} THEN {"segment-lines"} ELSE {})
Bad07(r) ==
    LET cs == Contacts(r.w, r.h, r.lab, Ran(r.gx), Ran(r.gy))
        want == {{x[3] - 1, x[4] - 1} : x \in cs}
        got == {{r.edges[i].n1, r.edges[i].n2} : i \in DOMAIN r.edges}
    IN (IF Ran(r.nodes) # {i - 1 : i \in 1..r.n} \/ ~NoDup(r.nodes) THEN {"nodes"} ELSE {})
       \cup (IF got \ want # {} THEN {"edge-spurious"} ELSE {})
       \cup (IF want \ got # {} THEN {"edge-missing"} ELSE {})
       \cup (IF Cardinality(got) # Len(r.edges) THEN {"edge-repeated"} ELSE {})
       \cup UNION {EdgeBad(r, cs, r.edges[i]) : i \in DOMAIN r.edges}

Bad(r) == CASE PID = "C04" -> Bad04(r) [] PID = "C05" -> Bad05(r) [] PID = "C07" -> Bad07(r)
TraceInit == c \in 1..Len(Cases) /\ l = 0
TraceNext == l = 0 /\ l' = 1 /\ c' = c
             /\ LET b == Bad(Cases[c]) IN b # {} => PrintT("FAIL " \o ToJson([case |-> c, l |-> 1, bad |-> b]))
TraceSpec == TraceInit /\ [][TraceNext]_<<c, l>>
=============================================================================
