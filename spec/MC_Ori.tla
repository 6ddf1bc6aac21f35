------------------------------- MODULE MC_Ori -------------------------------
(* Orientation laws: means of small grains, turning, kernel averages, triangles.   *)
EXTENDS Ori
CONSTANTS Part, Idx, N
VARIABLES qs, d
vars == <<qs, d>>
GensF == {<<7071, 7071, 0, 0>>, <<5000, 5000, 5000, 5000>>}
GensH == {<<8660, 0, 0, 5000>>, <<0, 10000, 0, 0>>}
Vecs == {v \in (-3..3) \X (-3..3) \X (-3..3) : v # <<0, 0, 0>>}
Few == {-10, -1, 0, 3, 10}
Init == /\ qs \in (IF Part = "ipf" THEN {<<>>} ELSE IF Part = "small" THEN [1..2 -> {500} \X Few \X Few \X Few] ELSE UNION {[1..n -> Idx] : n \in 1..N})
        /\ d \in (IF Part = "ipf" THEN Vecs ELSE {<<0, 0, 1>>})
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
U == [i \in DOMAIN qs |-> UnitF(Palette[qs[i]])]
\* one equivalent (and sign) of every pixel replaced: same mean up to equivalence
InvMean == Part = "mean" =>
    /\ (\A i, j \in DOMAIN qs : qs[i] = qs[j]) => \A s \in {"cubic", "hexagonal"} : \A m \in Means(s, U) : NearUpTo(m, U[1], 4)
    /\ \A g \in GensF : LET V == [i \in DOMAIN U |-> IF i % 2 = 0 THEN MulF(g, U[i]) ELSE Neg(U[i])]
                        IN \E m \in Means("cubic", U), n \in Means("cubic", V) : EquivTo("cubic", m, n, 12)
    /\ \A g \in GensH : LET V == [i \in DOMAIN U |-> IF i % 2 = 1 THEN MulF(g, U[i]) ELSE U[i]]
                        IN \E m \in Means("hexagonal", U), n \in Means("hexagonal", V) : EquivTo("hexagonal", m, n, 12)
InvSmall == Part = "small" => \A i \in DOMAIN qs : \A j \in DOMAIN qs :
    LET v == SmallVers(qs[i], qs[j]) IN /\ v >= 0 /\ v = SmallVers(qs[j], qs[i]) /\ v = SmallVers(Neg(qs[i]), qs[j]) /\ (v = 0 <=> qs[i] = qs[j])
                                      /\ Near(CosDot(UnitF(qs[i]), UnitF(qs[j])), 10000 - v \div 10000, 3)
InvTurn == Part = "mean" => LET t == Turn(Turn(U)) IN \A i \in DOMAIN U : NearUpTo(t[i], U[i], 2)
InvKam == (Part = "mean" /\ Len(qs) = 4) =>
    /\ \A x, y \in 0..1 : LET M == <<U[2], U[1], U[4], U[3]>> IN Kam(U, 2, 2, <<x, y>>) = Kam(M, 2, 2, <<1 - x, y>>)
    /\ (\A i \in DOMAIN qs : qs[i] = qs[1]) => \A x, y \in 0..1 : Near(Kam(U, 2, 2, <<x, y>>), 10000, 3)
    /\ \A x, y \in 0..1 : Kam([U EXCEPT ![2] = Neg(@)], 2, 2, <<x, y>>) = Kam(U, 2, 2, <<x, y>>)
Big(v) == [i \in 1..3 |-> 1000 * v[i]]
InvFund == Part = "ipf" =>
    /\ LET f == FundCubic(d) IN f[1] <= 0 /\ -f[1] <= f[2] /\ f[2] <= f[3]
                             /\ \A s \in CubicG : LET v == Sandwich(s, d) IN FundCubic(v) = Times(Norm2(s), f)
    /\ \E p \in HexStar(Big(d)) : InSector(p[1], p[2], TRUE, 3)
    /\ \E p \in HexStar(Big(d)) : InSector(p[1], p[2], FALSE, 3)
InvColour == Part = "ipf" => \A sym \in {"cubic", "hexagonal"} :
    LET u == Unit3(d)  r == Colour(sym, FundUnit(sym, u))
    IN \A i \in 1..3 : r[i] \in 0..1000 /\ \E j \in 1..3 : r[j] = 1000
InvCorner == \A sym \in {"cubic", "hexagonal"} : \A i, j \in 1..3 :
                 LET r == Colour(sym, Corners(sym)[i])[j] IN IF i = j THEN r = 1000 ELSE r <= 12
=============================================================================
