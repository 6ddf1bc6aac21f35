-------------------------------- MODULE Ori --------------------------------
(* Orientations of grains and maps: means, spread, kernel averages, turning a    *)
(* map, and colours of inverse pole figures.  Unit quaternions and vectors are    *)
(* in ten-thousandths.                                                            *)
EXTENDS Quat
Ran(s) == {s[i] : i \in DOMAIN s}
DivR(a, b) == IF a >= 0 THEN (2 * a + b) \div (2 * b) ELSE -((2 * b - 2 * a - b) \div (2 * b))   \* rounded, b > 0
SqSum(v) == IF Len(v) = 4 THEN Norm2(v) ELSE v[1]*v[1] + v[2]*v[2] + v[3]*v[3]
\* unit vector of an integer vector, well scaled first
UnitF(v) == LET s == SqSum(v)
                k == Max2(1, ISqrt(1000000000 \div s))
                n == ISqrt(s * k * k)
            IN [i \in DOMAIN v |-> DivR(v[i] * k * 10000, n)]

(* Mean: a running sum; each next orientation joins as the equivalent, with the    *)
(* sign, closest to the sum so far.  The set covers ties within the resolution.    *)
RECURSIVE SumsFrom(_, _, _, _)
SumsFrom(G, qs, k, acc) ==
    IF k > Len(qs) THEN acc
    ELSE LET step(s) ==
               LET es == {MulF(g, qs[k]) : g \in G}
                   m == MaxOf({Abs(Dot(s, e)) : e \in es})
               IN {IF Dot(s, e) > 0 THEN [i \in 1..4 |-> s[i] + e[i]] ELSE [i \in 1..4 |-> s[i] - e[i]] :
                     e \in {x \in es : Abs(Dot(s, x)) >= m - m \div 1500}}
         IN SumsFrom(G, qs, k + 1, UNION {step(s) : s \in acc})
Normalise(s, n) == LET t == [i \in 1..4 |-> DivR(s[i], n)]
                   IN UnitF(t)
Means(sym, qs) == {Normalise(s, Len(qs)) : s \in SumsFrom(SymF(sym), qs, 2, {qs[1]})}
EquivTo(sym, a, b, eps) == \E g \in SymF(sym) : NearUpTo(MulF(g, a), b, eps)
\* cosine of half the smallest angle to a reference (ten-thousandths)
HalfCos(sym, ref, q) == MaxOf({Abs(Dot(ref, MulF(g, q))) : g \in SymF(sym)}) \div 10000
Closest(sym, ref, q) == LET m == MaxOf({Abs(Dot(ref, MulF(g, q))) : g \in SymF(sym)})
                        IN {MulF(g, q) : g \in {x \in SymF(sym) : Abs(Dot(ref, MulF(x, q))) >= m - 30000}}

(* Kernel average: cosine of half the value.                                      *)
CosDot(p, q) == LET d == Abs(Dot(p, q)) \div 10000 IN Min2(d, 10000)
Mean2(S) == S[1] + S[2]
LineBy(F(_, _), img, w, h, p, dx, dy) ==       \* twice the average over the neighbours of one direction
    LET a == <<p[1] - dx, p[2] - dy>>  b == <<p[1] + dx, p[2] + dy>>
        inm(q) == q[1] >= 0 /\ q[2] >= 0 /\ q[1] < w /\ q[2] < h
        at(q) == img[q[2] * w + q[1] + 1]
        f(q) == F(at(p), at(q))
    IN IF inm(a) /\ inm(b) THEN f(a) + f(b) ELSE IF inm(a) THEN 2 * f(a) ELSE 2 * f(b)
KamBy(F(_, _), img, w, h, p) == (LineBy(F, img, w, h, p, 1, 0) + LineBy(F, img, w, h, p, 0, 1)) \div 4
Kam(img, w, h, p) == KamBy(CosDot, img, w, h, p)
(* Orientations very close to each other, <<500, a, b, c>> with small a, b, c, either *)
(* sign: one less the cosine of half the angle between them, in hundred-millionths.  *)
Wedge2(p, q) == LET k(i, j) == p[i] * q[j] - p[j] * q[i]
                IN k(1, 2) * k(1, 2) + k(1, 3) * k(1, 3) + k(1, 4) * k(1, 4) + k(2, 3) * k(2, 3) + k(2, 4) * k(2, 4) + k(3, 4) * k(3, 4)
SmallVers(p, q) == Wedge2(p, q) \div 1250
NearVers(r, v) == r - v \in -(3 + v \div 100)..(3 + v \div 100)

(* Turning a map by half a turn about its normal.                                  *)
Rev(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
HalfTurn == <<0, 0, 0, 10000>>
Turn(img) == LET r == Rev(img) IN [i \in DOMAIN r |-> MulF(r[i], HalfTurn)]

(* Inverse pole figures: the direction in the crystal, moved into the triangle.     *)
Sort3(a, b, c) == LET lo == Min2(a, Min2(b, c))  hi == Max2(a, Max2(b, c)) IN <<lo, a + b + c - lo - hi, hi>>
FundCubic(v) == LET s == Sort3(Abs(v[1]), Abs(v[2]), Abs(v[3])) IN <<-s[1], s[2], s[3]>>
Rot60(k, v) == <<Round4(5000 * (C30(2*k)[1]) * v[1]) - (IF S30(2*k)[2] # 0 THEN Round4(S30(2*k)[2] * 8660 * v[2]) ELSE 0),
                 (IF S30(2*k)[2] # 0 THEN Round4(S30(2*k)[2] * 8660 * v[1]) ELSE 0) + Round4(5000 * (C30(2*k)[1]) * v[2])>>
HexStar(v) == UNION {{Rot60(k, v), << -Rot60(k, v)[1], Rot60(k, v)[2] >>} : k \in 0..5}
\* up: azimuth 90..120, down: 60..90
InSector(x, y, up, e) == y >= -e /\ (IF up THEN x <= e /\ 17320 * (-x) <= 10000 * y + 20000 * e
                                     ELSE x >= -e /\ 17320 * x <= 10000 * y + 20000 * e)
FundOk(sym, up, v, r, e) ==      \* r: direction reported, same scale as v
    IF sym = "cubic" THEN NearSeq(r, FundCubic(v), e)
    ELSE /\ Near(r[3], Abs(v[3]), e) /\ InSector(r[1], r[2], up, e)
         /\ \E p \in HexStar(v) : Near(p[1], r[1], e) /\ Near(p[2], r[2], e)

(* Colour of a unit direction of the triangle: for each corner, the arc from the    *)
(* direction to the opposite side over the whole arc through it.                    *)
Cross(a, b) == << Round4(a[2]*b[3] - a[3]*b[2]), Round4(a[3]*b[1] - a[1]*b[3]), Round4(a[1]*b[2] - a[2]*b[1]) >>
Dot3(a, b) == a[1]*b[1] + a[2]*b[2] + a[3]*b[3]
Len3(v) == ISqrt(Dot3(v, v))
Unit3(v) == UnitF(v)
Asin(s) == LET h == CHOOSE k \in 0..179 : Quarter[k + 1] <= s /\ (s < Quarter[k + 2] \/ k = 179)
               d == Quarter[h + 2] - Quarter[h + 1]
           IN 50 * h + (IF d = 0 THEN 0 ELSE (50 * (s - Quarter[h + 1])) \div d)     \* hundredths of degrees
Arc(a, b) == LET s == Min2(10000, Len3(Cross(a, b)))  c == Min2(10000, Abs(Dot3(a, b)) \div 10000)
             IN IF s <= 7071 THEN Asin(s) ELSE 9000 - Asin(c)
Corners(sym) == IF sym = "cubic" THEN << <<0, 0, 10000>>, <<0, 7071, 7071>>, <<-5774, 5774, 5774>> >>
                ELSE << <<0, 0, 10000>>, <<0, 10000, 0>>, <<-5000, 8660, 0>> >>
Channel(d, c, o1, o2) ==
    LET n1 == Cross(d, c)
    IN IF Len3(n1) < 60 THEN 1000                                  \* at the corner
       ELSE LET x == Cross(Unit3(n1), Unit3(Cross(o1, o2)))
                u == Unit3(x)
            IN Min2(1000, (1000 * Arc(d, u)) \div Arc(c, u))
Colour(sym, d) == LET k == Corners(sym)
                      r == << Channel(d, k[1], k[2], k[3]), Channel(d, k[2], k[3], k[1]), Channel(d, k[3], k[1], k[2]) >>
                      m == Max2(r[1], Max2(r[2], r[3]))
                  IN [i \in 1..3 |-> DivR(r[i] * 1000, m)]
\* the direction of the triangle for a crystal direction (unit, ten-thousandths)
FundUnit(sym, v) == IF sym = "cubic" THEN FundCubic(v)
    ELSE LET s == {p \in HexStar(v) : InSector(p[1], p[2], TRUE, 3)}
             p == CHOOSE x \in s : TRUE
         IN <<p[1], p[2], Abs(v[3])>>
\* crystal direction of a sample direction, unit
CrystalDir(q, d) == UnitF(MatVec(RotN(q), d))
=============================================================================
