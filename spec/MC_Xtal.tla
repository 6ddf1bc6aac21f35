------------------------------- MODULE MC_Xtal -------------------------------
(* Laws of index notation, families and grouping on all small integer indices.     *)
EXTENDS Xtal
CONSTANTS B, N
VARIABLES p, d, ss
vars == <<p, d, ss>>
V == (-B)..B
V3 == {v \in V \X V \X V : NonZero(v)}
SysC == << <<<<1,1,1>>, <<0,1,-1>>>>, <<<<-1,-1,-1>>, <<1,0,-1>>>>, <<<<1,1,0>>, <<1,-1,1>>>>, <<<<1,2,3>>, <<1,1,-1>>>>, <<<<1,1,-1>>, <<1,-1,0>>>> >>
SysH == << <<<<0,0,0,1>>, <<1,1,-2,0>>>>, <<<<1,0,-1,0>>, <<1,-2,1,0>>>>, <<<<0,-1,1,0>>, <<2,-1,-1,0>>>>, <<<<1,0,-1,1>>, <<1,1,-2,-3>>>>, <<<<0,0,0,-1>>, <<1,-2,1,0>>>> >>
Init == IF N = 0 THEN p \in V3 /\ d \in V3 /\ ss = <<>>
        ELSE p = <<0,0,1>> /\ d = <<1,0,0>> /\ ss \in UNION {[1..n -> 1..5] : n \in 1..N}
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
InvRound == PlaneToM(PlaneToMB(p)) = p /\ [i \in 1..3 |-> 3 * d[i]] = DirToM(DirToMB3(d))
InvThird == LET a == PlaneToMB(p)  b == DirToMB3(d) IN a[3] = -(a[1] + a[2]) /\ b[3] = -(b[1] + b[2])
InvLies == Lies(PlaneToMB(p), DirToMB3(d)) = 3 * Lies(p, d)
InvPos == Pos(Pos(p)) = Pos(p) /\ Pos([i \in 1..3 |-> -p[i]]) = Pos(p)
InvReduce == GcdAll(Reduce(p), 1) = 1 /\ \E k \in 1..B : p = [i \in 1..3 |-> k * Reduce(p)[i]]
\* images keep incidence and the redundant index, and form an orbit
InvImages == /\ \A g \in CubicG : Lies(CubicImage(g, p), CubicImage(g, d)) = Lies(p, d)
             /\ \A o \in HexOps : LET a == HexImage(o, PlaneToMB(p))  b == HexImage(o, DirToMB3(d))
                  IN Lies(a, b) = 3 * Lies(p, d) /\ a[3] = -(a[1] + a[2])
             /\ 24 % Cardinality(Images("cubic", p)) = 0 /\ 12 % Cardinality(Images("hexagonal", PlaneToMB(p))) = 0
             /\ \A x \in Images("hexagonal", PlaneToMB(p)) : Images("hexagonal", x) = Images("hexagonal", PlaneToMB(p))
\* direct and reciprocal cartesian vectors are dual: plane . direction = h u + k v + l w
InvDual == \A conv \in {"hkl", "tsl"} : \A ca \in {1000, 1587, 1633} :
    LET a == PlaneCart(conv, ca, p)  b == DirCart(conv, ca, d)
        x == DivR(a[1], 10) * DivR(b[1], 10) + DivR(a[2], 10) * DivR(b[2], 10) + DivR(a[3], 10) * DivR(b[3], 10)
    IN Near(DivR(x, 1000), 1000 * Lies(p, d), 60)
Parts(gs, n) == LET all == {<<i, j>> : i \in 1..Len(gs), j \in 1..n}
                    f == {<<i, j>> \in all : j <= Len(gs[i])} IN Cardinality(f) = n
InvGroup == N > 0 => \A sym \in {"cubic", "hexagonal"} :
    LET s == [i \in DOMAIN ss |-> IF sym = "cubic" THEN SysC[ss[i]] ELSE SysH[ss[i]]]
        gp == ByPlane(s)  gf == ByFamily(sym, s)
    IN /\ Parts(gp, Len(s)) /\ Parts(gf, Len(s))
       /\ \A i \in 1..Len(gp) : \A j \in 1..Len(gp[i]) : Pos(gp[i][j][1]) = Pos(gp[i][1][1])
       /\ \A i, k \in 1..Len(gp) : i < k => Pos(gp[i][1][1]) # Pos(gp[k][1][1])
       /\ \A i, k \in 1..Len(gf) : i < k => Family(sym, gf[i][1]) \cap Family(sym, gf[k][1]) = {}
       /\ \A i \in 1..Len(gf) : \A j \in 1..Len(gf[i]) : Family(sym, gf[i][j]) = Family(sym, gf[i][1])
=============================================================================
