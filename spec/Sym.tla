-------------------------------- MODULE Sym --------------------------------
(* Integer quaternions and the rotation groups of the supported crystals.     *)
(* A quaternion stands for the rotation of its direction; it is never          *)
(* normalised, comparisons use squared cosines and stay in the integers.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

Mul(p, q) == << p[1]*q[1] - p[2]*q[2] - p[3]*q[3] - p[4]*q[4],
                p[1]*q[2] + p[2]*q[1] + p[3]*q[4] - p[4]*q[3],
                p[1]*q[3] - p[2]*q[4] + p[3]*q[1] + p[4]*q[2],
                p[1]*q[4] + p[2]*q[3] - p[3]*q[2] + p[4]*q[1] >>
Conj(q) == <<q[1], -q[2], -q[3], -q[4]>>
Neg(q) == <<-q[1], -q[2], -q[3], -q[4]>>
Dot(p, q) == p[1]*q[1] + p[2]*q[2] + p[3]*q[3] + p[4]*q[4]
Norm2(q) == Dot(q, q)

(* The 24 rotations of a cube: quaternions with entries in {-1,0,1} that have *)
(* 1, 2 or 4 non-zero entries, up to sign.                                     *)
Tri == {-1, 0, 1}
FirstPos(q) == LET k == CHOOSE i \in 1..4 : q[i] # 0 /\ \A j \in 1..(i-1) : q[j] = 0 IN q[k] > 0
CubicG == {q \in Tri \X Tri \X Tri \X Tri : Norm2(q) \in {1, 2, 4} /\ Norm2(q) > 0 /\ FirstPos(q)}

(* Hexagonal group, doubled, entries r + s*sqrt(3) as <<r, s>>.                *)
C30(k) == CASE k % 12 = 0 -> <<2, 0>> [] k % 12 \in {1, 11} -> <<0, 1>> [] k % 12 \in {2, 10} -> <<1, 0>>
            [] k % 12 \in {3, 9} -> <<0, 0>> [] k % 12 \in {4, 8} -> <<-1, 0>> [] k % 12 \in {5, 7} -> <<0, -1>>
            [] OTHER -> <<-2, 0>>
S30(k) == C30(k + 9)
Z0 == <<0, 0>>
HexG == {<<C30(k), Z0, Z0, S30(k)>> : k \in 0..5} \cup {<<Z0, C30(k), S30(k), Z0>> : k \in 0..5}
\* s * q for hexagonal s and integer q, split into the rational and the root parts
RPart(s) == <<s[1][1], s[2][1], s[3][1], s[4][1]>>
SPart(s) == <<s[1][2], s[2][2], s[3][2], s[4][2]>>

(* Squared cosine of half the rotation between p and q, over symmetry:         *)
(*   cubic: max_s D_s^2 (4/n_s) / (4 |p|^2 |q|^2)                               *)
CubicD(p, q) == LET ds == {LET d == Dot(p, Mul(s, q)) IN d * d * (4 \div Norm2(s)) : s \in CubicG}
                IN CHOOSE m \in ds : \A x \in ds : x <= m
\* hexagonal: A_s + B_s root3, cos^2 = (A + B root3)^2 / (4 |p|^2 |q|^2)
HexAB(p, q) == {<<Dot(p, Mul(RPart(s), q)), Dot(p, Mul(SPart(s), q))>> : s \in HexG}

(* cos^2(tol/2) bracketed in ten-thousandths; between the two is not judged.    *)
CosLo(t) == CASE t = 5 -> 9980 [] t = 10 -> 9924 [] t = 15 -> 9829 [] t = 20 -> 9698 [] t = 30 -> 9330
              [] t = 45 -> 8535 [] t = 60 -> 7499 [] t = 90 -> 4999
CosHi(t) == CASE t = 60 -> 7501 [] t = 90 -> 5001 [] OTHER -> CosLo(t) + 1
\* bounds of (A + B root3)^2 scaled by 1000
HexSqLo(ab) == LET x == 2 * ab[1] * ab[2] IN 1000 * (ab[1]*ab[1] + 3*ab[2]*ab[2]) + (IF x >= 0 THEN 1732 * x ELSE 1733 * x)
HexSqHi(ab) == LET x == 2 * ab[1] * ab[2] IN 1000 * (ab[1]*ab[1] + 3*ab[2]*ab[2]) + (IF x >= 0 THEN 1733 * x ELSE 1732 * x)
MaxOf(S) == CHOOSE m \in S : \A x \in S : x <= m
DisoriMust(sym, p, q, t) ==     \* certainly more than t degrees apart
    IF sym = "cubic" THEN CubicD(p, q) * 10000 < CosLo(t) * 4 * Norm2(p) * Norm2(q)
    ELSE MaxOf({HexSqHi(ab) : ab \in HexAB(p, q)}) < ((CosLo(t) * 4 * Norm2(p) * Norm2(q)) \div 10)
DisoriMay(sym, p, q, t) ==      \* possibly more than t degrees apart
    IF sym = "cubic" THEN CubicD(p, q) * 10000 <= CosHi(t) * 4 * Norm2(p) * Norm2(q)
    ELSE MaxOf({HexSqLo(ab) : ab \in HexAB(p, q)}) <= ((CosHi(t) * 4 * Norm2(p) * Norm2(q)) \div 10) + 1

(* Rotations about the c axis by whole degrees: exact disorientation.          *)
ZDis(sym, a, b) == LET n == IF sym = "cubic" THEN 90 ELSE 60  d == Abs(a - b) % n IN Min2(d, n - d)

Palette == << <<1,0,0,0>>, <<11,1,0,0>>, <<12,1,0,0>>, <<11,0,1,0>>, <<12,0,0,1>>, <<11,0,0,1>>, <<10,1,1,0>>, <<9,1,1,1>>,
              <<13,1,1,0>>, <<5,1,0,0>>, <<3,1,1,0>>, <<2,1,0,0>>, <<1,1,1,1>>, <<1,2,3,4>>, <<1,1,0,0>>, <<7,-1,2,0>>,
              <<-11,1,0,0>>, <<1,12,0,0>>, <<1,0,0,1>>, <<2,-1,3,1>>, <<0,1,0,0>>, <<3,2,-1,1>>, <<7,0,0,2>>, <<7,0,0,-2>>,
              <<0,0,3,1>>, <<4,1,-3,2>>, <<-1,2,-3,4>>, <<1,-1,1,5>> >>
NPal == Len(Palette)
=============================================================================
