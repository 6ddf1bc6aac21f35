--------------------------- MODULE Trace_MisView ---------------------------
(* Judges recorded views of the spread within grains, and across segments (C39). *)
EXTENDS MisView, Json, IOUtils, TLC
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, l, f, st
vars == <<c, l, f, st>>
no(name, b) == IF b THEN {} ELSE {name}
C == Cases[c]
Pix(p) == UnitF(C.img[p[2] * C.w + p[1] + 1])
In(p) == \E g \in DOMAIN C.pts : \E i \in DOMAIN C.pts[g] : C.pts[g][i] = p
EPS == 9
\* the recorded references, as far as the specification leaves them open
RefsOk(s, e) == \A g \in DOMAIN s.ref : IF s.ref[g] = <<>> THEN e.refs[g] = <<>>
                                        ELSE Len(e.refs[g]) = 4 /\ NearUpTo(e.refs[g], s.ref[g], 2)
GrainOk(h, g, vals, comp) == Len(vals) = Len(C.pts[g]) /\ \A i \in DOMAIN vals : ShowOk(C.sym, h[g], Pix(C.pts[g][i]), comp, vals[i], EPS)
Bad(s, e) ==
    LET b == no("reference", RefsOk(s, e)) IN
    CASE e.op = "show" -> b \cup no("map-shown", \A g \in DOMAIN C.pts : GrainOk(Have(s, e.comp), g, e.vals[g], e.comp))
            \cup no("outside-grains", e.out = 0) \cup no("label", e.comp > 0 => e.label = << "X", "Y", "Z" >>[e.comp])
            \cup no("shape", e.shape = <<C.h, C.w>>)
      [] e.op = "showg" -> b \cup no("grain-shown", GrainOk(Have(s, e.comp), e.g, e.vals, e.comp))
            \cup no("around-grain", e.out = 0) \cup no("label", e.comp > 0 => e.label = << "X", "Y", "Z" >>[e.comp])
      [] e.op = "seg" -> b \cup UNION {LET t == e.segs[k] IN
              no("segment-angle", \E r \in Rotations(C.sym, s.ref[t.a], s.ref[t.b]) : Near(t.ang, 2 * HalfArc(r), EPS))
              \cup no("segment-axis", t.ang < 60 \/ \E r \in Rotations(C.sym, s.ref[t.a], s.ref[t.b]) :
                       LET n == Turned(r) IN \E sg \in (IF r[1] \in -60..60 THEN {1, -1} ELSE {1}) :
                       \A j \in 1..3 : Near((t.axis[j] * sg * t.ang) \div 1000, n[j], 2 * EPS)) : k \in DOMAIN e.segs}
            \cup no("segments", Len(e.segs) = C.nseg)
      [] e.op = "crash" -> {"exception"}
      [] OTHER -> b
\* references the implementation found itself are trusted here: property C26 judges them
Mean(e) == [g \in DOMAIN C.pts |-> e.refs[g]]
TraceInit == c \in 1..Len(Cases) /\ l = 0 /\ f = 0 /\ st = Start(Len(Cases[c].pts))
TraceNext == /\ l < Len(C.ev) /\ l' = l + 1 /\ c' = c
             /\ LET e == C.ev[l + 1]
                    s2 == IF e.op = "crash" THEN st ELSE Step(st, IF e.op = "set" THEN [e EXCEPT !.q = UnitF(e.q)] ELSE e, Mean(e))
                    b == TLCEval(IF f = 0 THEN Bad(s2, e) ELSE {})
                IN /\ st' = s2
                   /\ f' = IF f = 0 /\ b # {} THEN l + 1 ELSE f
                   /\ (f = 0 /\ b # {}) => PrintT("FAIL " \o ToJson([case |-> c, l |-> l + 1, bad |-> b]))
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
