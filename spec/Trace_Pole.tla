------------------------------ MODULE Trace_Pole ------------------------------
(* Judges recorded pole figures (C35).                                               *)
EXTENDS Pole, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, l
no(name, b) == IF b THEN {} ELSE {name}
\* one line <<points>>: ends show a and b (either end on the rim), the rest lies on the arc
EndsOk(e, L, a, b) == /\ \E x \in Ends(a) : NearP(L[1], Proj(e.kind, x), 12)
                      /\ \E y \in Ends(b) : NearP(L[Len(L)], Proj(e.kind, y), 12)
ArcOk(e, L) == LET a == Unproj(e.kind, L[1])  b == Unproj(e.kind, L[Len(L)]) IN
               Dot3(a, b) < -99000000 \/ \A i \in DOMAIN L : OnArc(a, b, Unproj(e.kind, L[i]), 30)
TriBad(e) ==
    LET t == TriCorners(e.sym, e.up) IN
    no("triangle-lines", Len(e.lines) = 3 /\ \A i \in 1..3 : \E j \in 1..3 :
           LET a == Orth(t[i])  b == Orth(t[(i % 3) + 1]) IN (EndsOk(e, e.lines[j], a, b) \/ EndsOk(e, e.lines[j], b, a)) /\ ArcOk(e, e.lines[j]))
    \cup no("corner-labels", Len(e.labels) = 3 /\ \A i \in 1..3 : \E j \in 1..3 : e.labels[j].idc = t[i] /\ NearP(e.labels[j].xy, Proj(e.kind, Orth(t[i])), 130))
Grp(e) == IF e.syms THEN SymF(e.sym) ELSE {<<10000, 0, 0, 0>>}
Bad(e) ==
    CASE e.op = "proj" -> no("count", Len(e.r) = Len(e.vs)) \cup
            no("projection", \A i \in DOMAIN e.r : NearP(e.r[i], Proj(e.kind, Unit3([k \in 1..3 |-> 1000 * e.vs[i][k]])), 8))
      [] e.op = "ipf" ->
            TriBad(e)
            \cup no("layer-count", Len(e.layers) = e.nlayers)
            \cup UNION {no("point-count", Len(e.layers[k]) = Len(e.qs)) \cup
                        no("position", Len(e.layers[k]) # Len(e.qs) \/ \A i \in DOMAIN e.qs :
                            FundOk(e.sym, e.up, CrystalDir(e.qs[i], e.d), Unproj(e.kind, e.layers[k][i]), 16)) : k \in DOMAIN e.layers}
            \cup no("colours", e.colours = e.want)
            \cup no("marker", Len(e.half) # e.nlayers \/ IF e.mark = "two" THEN {e.half[1], e.half[2]} = {1, -1} ELSE e.half = [i \in 1..e.nlayers |-> 0])
            \cup no("colour-bar", e.bar = e.wbar) \cup no("values", e.arr = e.warr)
      [] e.op = "label" -> LET p == Orth(e.p) IN
            no("label-count", Len(e.labels) = Cardinality(Grp(e)))
            \cup no("label-missing", \A g \in Grp(e) : \E k \in DOMAIN e.labels : \E x \in Ends(RotVec(g, p)) : NearP(e.labels[k].xy, Proj(e.kind, x), 14))
            \cup no("label-place", \A k \in DOMAIN e.labels : \E g \in Grp(e) : \E x \in Ends(RotVec(g, p)) : NearP(e.labels[k].xy, Proj(e.kind, x), 14))
            \cup no("label-text", \A k \in DOMAIN e.labels : IF e.text # "" THEN e.labels[k].text = e.text
                     ELSE \E x \in Ends(Orth(e.labels[k].idc)) : NearP(e.labels[k].xy, Proj(e.kind, x), 14))
      [] e.op = "line" -> LET a == Orth(e.a)  b == Orth(e.b) IN
            no("line-count", Len(e.lines) = Cardinality(Grp(e)))
            \cup no("line-missing", \A g \in Grp(e) : \E k \in DOMAIN e.lines : EndsOk(e, e.lines[k], RotVec(g, a), RotVec(g, b)))
            \cup no("line-place", \A k \in DOMAIN e.lines : (\E g \in Grp(e) : EndsOk(e, e.lines[k], RotVec(g, a), RotVec(g, b))) /\ ArcOk(e, e.lines[k]))
TraceInit == c \in 1..Len(Cases) /\ l = 0
TraceNext == l = 0 /\ l' = 1 /\ c' = c
             /\ LET b == Bad(Cases[c]) IN b # {} => PrintT("FAIL " \o ToJson([case |-> c, l |-> 1, bad |-> b]))
TraceSpec == TraceInit /\ [][TraceNext]_<<c, l>>
=============================================================================
