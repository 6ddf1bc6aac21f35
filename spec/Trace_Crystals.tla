--------------------------- MODULE Trace_Crystals ---------------------------
(* Judges recorded histories of deformation grains and their crystals (C40).     *)
(* C.TR[ph][q], C.SF[ph][q][v]: traces (hundredths of degrees) and Schmid factors *)
(* (thousandths) of a crystal of phase ph turned as q, decided by property C18.   *)
EXTENDS Crystals, Json, IOUtils, TLC
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, l, f, st
vars == <<c, l, f, st>>
no(name, b) == IF b THEN {} ELSE {name}
C == Cases[c]
NoValue == 99999
Near(a, b, e) == a - b \in -e..e
NearSeq(a, b, e) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Near(a[i], b[i], e)
Half(a) == a % 18000
NearHalf(a, b, e) == LET d == (a - b) % 18000 IN d <= e \/ d >= 18000 - e
X(k) == (k - 1) % C.w
Pix(c2) == {k \in 1..(C.w * C.h) : X(k) \in C.col[c2[1]][c2[2]][1]..C.col[c2[1]][c2[2]][2]}
Seen(s, k) == s.mask = 0 \/ C.mk[s.mask][k] = 0
RECURSIVE Sum(_, _)
Sum(S, a) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN a[x] + Sum(S \ {x}, a)
AvOk(s, e) == \A k \in 1..(C.w * C.h) :
    LET D == {d \in DOMAIN s.gs : k \in Pix(s.gs[d])} IN
    IF D = {} THEN e.img[k] = 0
    ELSE LET d == CHOOSE d \in D : TRUE
             P == {p \in Pix(s.gs[d]) : Seen(s, p)}
             n == Cardinality(P)  t == Sum(P, C.sh[s.shear])
         IN n = 0 \/ e.img[k] * n - 100 * t \in -n..n
Bad(s, s0, e) ==
    LET k == "d" \in DOMAIN e /\ Known(s, e.d)
        c2 == IF k THEN Crystal(s, e.d) ELSE <<1, 1>>
        ph == C.ph[c2[1]][c2[2]]  q == s.tr[c2[1]][c2[2]]  sf == s.sf[c2[1]][c2[2]]
    IN CASE e.op = "look" -> no("grain", e.crystal = c2) \cup no("reference", e.ref = s0.ref[c2[1]][c2[2]])
            \cup no("phase", e.phase = ph) \cup no("traces", NearSeq(e.tr, C.TR[ph][q], 2)) \cup no("count", e.n = Len(s.gs))
            \cup no("id", e.id = e.d - 1)
         [] e.op = "plotd" -> no("traces-drawn", Len(e.tr) >= Len(C.TR[ph][q]) /\ \A i \in DOMAIN C.TR[ph][q] : C.TR[ph][q][i] = NoValue \/ NearHalf(e.tr[i], C.TR[ph][q][i], 5))
            \cup no("colours", \A i \in DOMAIN C.TR[ph][q] : i <= Len(e.cols) => e.cols[i] = C.cols[ph][i])
            \cup no("values-drawn", \A p \in 1..(C.w * C.h) : LET col == C.col[c2[1]][c2[2]] IN
                  p \in Pix(c2) => e.img[((p - 1) \div C.w) * (col[2] - col[1] + 1) + X(p) - col[1] + 1] = 100 * C.sh[s.shear][p])
         [] e.op = "print" -> no("planes", [i \in DOMAIN e.planes |-> e.planes[i].label] = [i \in DOMAIN C.lab[ph] |-> C.lab[ph][i].label])
            \cup no("plane-colours", [i \in DOMAIN e.planes |-> e.planes[i].colour] = [i \in DOMAIN C.lab[ph] |-> C.lab[ph][i].colour])
            \cup no("directions", [i \in DOMAIN e.planes |-> e.planes[i].dirs] = [i \in DOMAIN C.lab[ph] |-> C.lab[ph][i].dirs])
            \cup no("angles", NearSeq([i \in DOMAIN e.planes |-> e.planes[i].angle], C.TR[ph][q], 2))
            \cup no("factors", LET t == C.SF[ph][sf[1]][sf[2]] IN Len(e.planes) = Len(t) /\ \A i \in DOMAIN t : NearSeq(e.planes[i].sf, t[i], 1))
         [] e.op = "sym" -> no("symmetry", e.sym = C.syms[s.prim[s.link]])
         [] e.op = "av" -> no("averages", Len(e.img) = C.w * C.h /\ AvOk(s, e))
         [] e.op = "map" -> no("map-drawn", \A p \in 1..(C.w * C.h) : e.img[p] = IF Seen(s, p) THEN 100 * C.sh[s.shear][p] ELSE NoValue)
         [] OTHER -> {}
BadScale(s, e) == no("scale", e.scale = s.scale * C.sub)
TraceInit == c \in 1..Len(Cases) /\ l = 0 /\ f = 0 /\ st = NewC(Cases[c])
TraceNext == /\ l < Len(C.ev) /\ l' = l + 1 /\ c' = c
             /\ LET e == C.ev[l + 1]
                    r == TLCEval(Step(C, st, e))
                    b == TLCEval(IF f # 0 THEN {} ELSE IF ~ CanC(st, e) THEN {"unexpected-step"}
                                 ELSE IF e.ok # r.ok THEN {e.op \o (IF r.ok THEN "-refused" ELSE "-not-refused")}
                                 ELSE (IF r.ok THEN Bad(r.st, st, e) ELSE {}) \cup BadScale(r.st, e))
                IN /\ st' = r.st
                   /\ f' = IF f = 0 /\ b # {} THEN l + 1 ELSE f
                   /\ (f = 0 /\ b # {}) => PrintT("FAIL " \o ToJson([case |-> c, l |-> l + 1, bad |-> b]))
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
