------------------------------ MODULE Trace_Ori ------------------------------
(* Judges recorded means and spreads (C26), kernel averages (C27) and colours (C28). *)
EXTENDS Ori, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, l
no(name, b) == IF b THEN {} ELSE {name}
Units(e) == [i \in DOMAIN e.qs |-> UnitF(e.qs[i])]
MeanOk(e, U) == \E m \in Means(e.sym, U) : EquivTo(e.sym, m, e.mean, 12)
GrainBad(e) ==
    LET U == Units(e)
        ref == IF e.set THEN UnitF(e.ref) ELSE e.mean
    IN no("mean", e.set \/ MeanOk(e, U)) \cup no("mean-not-unit", Near(Norm2(e.mean) \div 10000, 10000, 4))
       \cup no("explicit-reference-ignored", e.set => NearUpTo(e.mean, ref, 2))
       \cup no("misorientation-list", Len(e.list) = Len(U) /\ \A i \in DOMAIN U : Near(e.list[i], HalfCos(e.sym, ref, U[i]), 6))
       \cup no("average-misorientation", Near(e.av, DivR(e.sum, Len(U)), 2))
       \cup no("grod", Len(e.grod) = Len(U) /\ \A i \in DOMAIN U : Near(e.grod[i], HalfCos(e.sym, ref, U[i]), 6))
       \cup UNION {LET ax == e.axes[k] IN       \* per pixel <<cos, vector * sin>> of half the turn
              no("axis", Len(ax) = Len(U) /\ \A i \in DOMAIN U : 
                   \E x \in Closest(e.sym, ref, U[i]) : NearUpTo(MulF(x, Conj(ref)), ax[i], 15)) : k \in DOMAIN e.axes}
CV(e, q, d) == Colour(e.sym, FundUnit(e.sym, CrystalDir(q, d)))
NearCol(a, b) == NearSeq(a, b, 25)
Plain(r) == /\ \A i \in 1..3 : r[i] \in 0..1000
            /\ \E i \in 1..3 : r[i] = 1000
EulerCol(sym, a) == IF sym = "cubic" THEN << (1000 * a[1]) \div 360, (1000 * a[2]) \div 90, (1000 * a[3]) \div 90 >>
                    ELSE << (1000 * a[1]) \div 180, (1000 * a[2]) \div 180, (1000 * a[3]) \div 60 >>
Bad(e) ==
    CASE e.op = "avg" -> no("mean", MeanOk(e, Units(e))) \cup no("mean-not-unit", Near(Norm2(e.mean) \div 10000, 10000, 4))
      [] e.op = "grain" -> GrainBad(e)
      [] e.op = "kam" -> LET U == [i \in DOMAIN e.img |-> UnitF(e.img[i])] IN
            no("kam", e.shape = <<e.h, e.w>> /\ \A k \in 1..(e.w * e.h) :
                 Near(e.r[k], Kam(U, e.w, e.h, << (k-1) % e.w, (k-1) \div e.w >>), 6))
      [] e.op = "kamf" -> no("small-kam", Len(e.r) = Len(e.img) /\ \A k \in DOMAIN e.r :
                 NearVers(e.r[k], KamBy(SmallVers, e.img, e.w, e.h, << (k-1) % e.w, (k-1) \div e.w >>)))
      [] e.op = "fund" -> no("fundamental-direction", Len(e.r) = Len(e.qs) /\ \A i \in DOMAIN e.qs :
            FundOk(e.sym, e.up, CrystalDir(e.qs[i], e.d), e.r[i], 8))
      [] e.op = "ipf" -> no("colour-count", Len(e.r) = Len(e.qs))
            \cup UNION {no("colour", NearCol(e.r[i], CV(e, e.qs[i], e.d))) \cup no("colour-range", Plain(e.r[i])) : i \in DOMAIN e.r}
      [] e.op = "corner" -> no("corner-colour", NearSeq(e.r, [j \in 1..3 |-> IF j = e.k THEN 1000 ELSE 0], 8))
      [] e.op = "same" -> no("equivalents-coloured-differently", \A i \in DOMAIN e.r : NearSeq(e.r[i], e.r[1], 4))
      [] e.op = "map" -> LET syms == e.syms IN       \* syms[phase], pixels not of a selected phase: background
            no("map-shape", e.shape = <<e.h, e.w, 3>>)
            \cup UNION {LET p == e.ph[k]
                            q == e.img[k]
                        IN IF p = 0 \/ p \notin Ran(e.sel) THEN no("background", e.r[k] = e.bg)
                           ELSE IF e.kind = "ipf"
                           THEN no("map-colour", NearCol(e.r[k], Colour(syms[p], FundUnit(syms[p], CrystalDir(q, e.d)))))
                           ELSE LET a == e.eul[k] IN      \* degrees
                                no("euler-colour", NearSeq(e.r[k], EulerCol(syms[p], a), 2))
                        : k \in DOMAIN e.r}
      [] e.op = "graincol" -> no("grain-map-shape", e.shape = e.box \o <<3>>) \cup
            no("grain-colour", Len(e.r) = Len(e.img) /\ \A k \in DOMAIN e.r : IF e.kind = "ipf" THEN NearCol(e.r[k], CV(e, e.img[k], e.d))
                 ELSE \* a figure shows at most full channels
                      NearSeq(e.r[k], [i \in 1..3 |-> Min2(1000, EulerCol(e.sym, e.eul[k])[i])], 2))
TraceInit == c \in 1..Len(Cases) /\ l = 0
TraceNext == l = 0 /\ l' = 1 /\ c' = c
             /\ LET b == Bad(Cases[c]) IN b # {} => PrintT("FAIL " \o ToJson([case |-> c, l |-> 1, bad |-> b]))
TraceSpec == TraceInit /\ [][TraceNext]_<<c, l>>
=============================================================================
