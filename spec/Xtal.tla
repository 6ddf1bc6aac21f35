-------------------------------- MODULE Xtal --------------------------------
(* Crystal indices, slip systems and what follows from them.                     *)
EXTENDS Ori
(* Three and four index notation.                                              *)
PlaneToMB(p) == <<p[1], p[2], -(p[1] + p[2]), p[3]>>
PlaneToM(p) == <<p[1], p[2], p[4]>>
DirToMB3(d) == <<2*d[1] - d[2], 2*d[2] - d[1], -d[1] - d[2], 3*d[3]>>      \* times three
DirToM(d) == <<d[1] - d[3], d[2] - d[3], d[4]>>
Lies(p, d) == IF Len(p) = 3 THEN p[1]*d[1] + p[2]*d[2] + p[3]*d[3] ELSE p[1]*d[1] + p[2]*d[2] + p[3]*d[3] + p[4]*d[4]
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
RECURSIVE GcdAll(_, _)
GcdAll(v, i) == IF i > Len(v) THEN 0 ELSE Gcd(Abs(v[i]), GcdAll(v, i + 1))
DivE(a, g) == IF a >= 0 THEN a \div g ELSE -((-a) \div g)
Reduce(v) == LET g == GcdAll(v, 1) IN IF g = 0 THEN v ELSE [i \in DOMAIN v |-> DivE(v[i], g)]
NonZero(v) == \E i \in DOMAIN v : v[i] # 0
Pos(v) == LET k == CHOOSE i \in DOMAIN v : v[i] # 0 /\ \A j \in 1..(i-1) : v[j] = 0
          IN IF v[k] > 0 THEN v ELSE [i \in DOMAIN v |-> -v[i]]
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN ToString(n) ELSE Digits(n \div 10) \o ToString(n % 10)
\* the combining bar is recorded as an underscore
Str1(i, tex) == IF i >= 0 THEN Digits(i) ELSE IF tex THEN "$\\bar{" \o Digits(-i) \o "}$" ELSE Digits(-i) \o "_"
RECURSIVE StrAll(_, _, _)
StrAll(v, i, tex) == IF i > Len(v) THEN "" ELSE Str1(v[i], tex) \o StrAll(v, i + 1, tex)

(* Symmetry acting on indices: three indices of cubic, four of hexagonal crystals. *)
CubicImage(s, v) == [i \in 1..3 |-> DivE(MatVec(RotN(s), v)[i], Norm2(s))]
Cyc == {<<1, 2, 3>>, <<2, 3, 1>>, <<3, 1, 2>>}
Swp == {<<2, 1, 3>>, <<1, 3, 2>>, <<3, 2, 1>>}
HexOps == {<<c, e, 1>> : c \in Cyc, e \in {1, -1}} \cup {<<c, e, -1>> : c \in Swp, e \in {1, -1}}
HexImage(o, v) == <<o[2] * v[o[1][1]], o[2] * v[o[1][2]], o[2] * v[o[1][3]], o[3] * v[4]>>
Images(sym, v) == IF sym = "cubic" THEN {CubicImage(s, v) : s \in CubicG} ELSE {HexImage(o, v) : o \in HexOps}
\* slip systems are pairs <<plane, direction>>, each up to sign
Canon(s) == <<Pos(s[1]), Pos(s[2])>>
Family(sym, s) == IF sym = "cubic" THEN {Canon(<<CubicImage(g, s[1]), CubicImage(g, s[2])>>) : g \in CubicG}
                  ELSE {Canon(<<HexImage(o, s[1]), HexImage(o, s[2])>>) : o \in HexOps}
Same(a, b) == Canon(a) = Canon(b)
RECURSIVE GroupFrom(_, _, _, _)
GroupFrom(ss, k, in(_, _), acc) ==
    IF k > Len(ss) THEN acc
    ELSE LET fit == {i \in 1..Len(acc) : in(acc[i][1], ss[k])}
         IN IF fit = {} THEN GroupFrom(ss, k + 1, in, Append(acc, <<ss[k]>>))
            ELSE LET i == CHOOSE j \in fit : \A m \in fit : j <= m
                 IN GroupFrom(ss, k + 1, in, [acc EXCEPT ![i] = Append(@, ss[k])])
ByPlane(ss) == GroupFrom(ss, 1, LAMBDA a, b : Pos(a[1]) = Pos(b[1]), <<>>)
ByFamily(sym, ss) == GroupFrom(ss, 1, LAMBDA a, b : Canon(b) \in Family(sym, a), <<>>)

(* Cartesian unit vectors (ten-thousandths); ca: c over a in thousandths.          *)
(* hkl: y along a2; tsl: x along a1.                                              *)
R3 == 17321   \* root three
\* scale 10^4 in the plane
DirCart(conv, ca, m) == IF conv = "hkl" THEN << (m[1] * R3) \div 2, m[2] * 10000 - m[1] * 5000, m[3] * ca * 10 >>
                        ELSE << m[1] * 10000 - m[2] * 5000, (m[2] * R3) \div 2, m[3] * ca * 10 >>
PlaneCart(conv, ca, m) == IF conv = "hkl" THEN << ((2*m[1] + m[2]) * R3) \div 3, m[2] * 10000, (m[3] * 10000000) \div ca >>
                          ELSE << m[1] * 10000, ((2*m[2] + m[1]) * R3) \div 3, (m[3] * 10000000) \div ca >>
Small(v) == [i \in 1..3 |-> DivR(v[i], 10)]      \* keeps squares in range
PlaneUnit(sym, conv, ca, p) == IF sym = "cubic" THEN UnitF(p) ELSE UnitF(Small(PlaneCart(conv, ca, PlaneToM(p))))
DirUnit(sym, conv, ca, d) == IF sym = "cubic" THEN UnitF(d) ELSE UnitF(Small(DirCart(conv, ca, DirToM(d))))

(* Schmid factor, trace, inclination of a system in an orientation (integers).     *)
ToCrystal(q, v) == LET r == MatVec(RotN(q), v) IN [i \in 1..3 |-> DivR(r[i], Norm2(q))]
ToSample(q, v) == LET r == MatVec(RotN(Conj(q)), v) IN [i \in 1..3 |-> DivR(r[i], Norm2(q))]
Schmid(sym, conv, ca, q, load, s) ==
    LET v == ToCrystal(q, UnitF(load))
        a == DivR(Dot3(v, PlaneUnit(sym, conv, ca, s[1])), 10000)  b == DivR(Dot3(v, DirUnit(sym, conv, ca, s[2])), 10000)
    IN Abs(DivR(a * b, 10000))
\* a plane (nearly) in the surface has no trace
Flat(sym, conv, ca, q, p) == LET n == ToSample(q, PlaneUnit(sym, conv, ca, p)) IN Abs(n[1]) < 60 /\ Abs(n[2]) < 60
TraceOk(sym, conv, ca, q, p, co, si) ==     \* cosine and sine of the trace angle
    LET n == ToSample(q, PlaneUnit(sym, conv, ca, p))
        t == << -n[2], n[1] >>
    IN \/ Abs(t[1]) < 60 /\ Abs(t[2]) < 60          \* plane (nearly) in the surface
       \/ LET u == UnitF(<<t[1], t[2], 0>>) IN Abs(DivR(-si * u[2] - co * u[1], 10000)) <= 150
=============================================================================
