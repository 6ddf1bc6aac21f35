-------------------------------- MODULE Quat --------------------------------
(* Rotations as integer quaternions: the passive conventions of the library.    *)
EXTENDS Sym, Trig

North(q) == IF q[1] < 0 THEN Neg(q) ELSE q
\* rotation matrix of an integer quaternion, times its squared norm
RotN(q) == LET w == q[1]  x == q[2]  y == q[3]  z == q[4] IN
   << <<w*w + x*x - y*y - z*z, 2*(x*y - w*z), 2*(x*z + w*y)>>,
      <<2*(x*y + w*z), w*w - x*x + y*y - z*z, 2*(y*z - w*x)>>,
      <<2*(x*z - w*y), 2*(y*z + w*x), w*w - x*x - y*y + z*z>> >>
MatVec(m, v) == [i \in 1..3 |-> m[i][1]*v[1] + m[i][2]*v[2] + m[i][3]*v[3]]
MatMul(m, n) == [i \in 1..3 |-> [j \in 1..3 |-> m[i][1]*n[1][j] + m[i][2]*n[2][j] + m[i][3]*n[3][j]]]
\* q v q* by quaternion products (v pure imaginary)
Sandwich(q, v) == LET r == Mul(Mul(q, <<0, v[1], v[2], v[3]>>), Conj(q)) IN <<r[2], r[3], r[4]>>
Vec(q) == <<q[2], q[3], q[4]>>

(* Fixed point (ten-thousandths) unit quaternions.                             *)
Round4(x) == IF x >= 0 THEN (x + 5000) \div 10000 ELSE -((5000 - x) \div 10000)
MulF(p, q) == LET r == Mul(p, q) IN [i \in 1..4 |-> Round4(r[i])]
\* passive rotation about coordinate axis a (2, 3, 4 = x, y, z), t in degrees
AxisF(a, t) == [i \in 1..4 |-> IF i = 1 THEN Cos(t) ELSE IF i = a THEN -Sin(t) ELSE 0]
\* Bunge angles (degrees): about z, then the new x, then the new z
EulerF(e) == MulF(AxisF(4, e[3]), MulF(AxisF(2, e[2]), AxisF(4, e[1])))

NearSeq(a, b, eps) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Near(a[i], b[i], eps)
NearUpTo(a, b, eps) == NearSeq(a, b, eps) \/ NearSeq(a, Neg(b), eps)
\* result moved to the northern hemisphere; on its rim the sign is not determined
NearNorth(a, b, eps) == IF b[1] = 0 THEN NearUpTo(a, b, eps) ELSE NearSeq(a, North(b), eps)
Times(k, q) == [i \in DOMAIN q |-> k * q[i]]

(* Symmetry operators in ten-thousandths.                                      *)
SymF(sym) == IF sym = "cubic"
    THEN {[i \in 1..4 |-> CASE Norm2(s) = 1 -> s[i] * 10000 [] Norm2(s) = 2 -> s[i] * 7071 [] OTHER -> s[i] * 5000] : s \in CubicG}
    ELSE {[i \in 1..4 |-> (CASE s[i][2] = 0 -> s[i][1] * 5000 [] OTHER -> s[i][2] * 8660)] : s \in HexG}
\* squared cosine of half the disorientation, times 400 |p|^2 |q|^2 : bounds
DisLo(sym, p, q) == IF sym = "cubic" THEN 100 * CubicD(p, q)
                    ELSE MaxOf({(HexSqLo(ab) \div 10) : ab \in HexAB(p, q)})
DisHi(sym, p, q) == IF sym = "cubic" THEN 100 * CubicD(p, q)
                    ELSE MaxOf({(HexSqHi(ab) \div 10) + 1 : ab \in HexAB(p, q)})
=============================================================================
