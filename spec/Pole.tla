-------------------------------- MODULE Pole --------------------------------
(* Pole figures: projections of directions onto the disc, as seen with x to the    *)
(* right of the crystal's second axis.  Unit vectors, positions: ten-thousandths.   *)
EXTENDS Ori
\* kind: stereo (equal angle) or lambert (equal area); v unit, v[3] > -9000
Proj(kind, v) == IF kind = "stereo" THEN <<DivR(10000 * v[2], 10000 + v[3]), DivR(-10000 * v[1], 10000 + v[3])>>
                 ELSE LET k == ISqrt((10000 + v[3]) * 5000) IN <<DivR(10000 * v[2], k), DivR(-10000 * v[1], k)>>
R2(p) == (p[1] * p[1] + p[2] * p[2]) \div 10000
\* the direction shown at a position
Unproj(kind, p) == LET s == R2(p) IN
    IF kind = "stereo" THEN LET d == 10000 + s IN << DivR(-20000 * p[2], d), DivR(20000 * p[1], d), (10000 * (10000 - s)) \div d>>
    ELSE LET c == 10000 - s \div 2  k == ISqrt((10000 + c) * 5000) IN << -((p[2] * k) \div 10000), (p[1] * k) \div 10000, c>>
Up(v) == IF v[3] < 0 THEN <<-v[1], -v[2], -v[3]>> ELSE v
\* images of a crystal direction under the symmetry, unit vectors
RotVec(g, v) == LET m == RotN(g) IN [i \in 1..3 |-> Round4(Round4(m[i][1]) * v[1]) + Round4(Round4(m[i][2]) * v[2]) + Round4(Round4(m[i][3]) * v[3])]
\* crystal direction in orthogonal axes; hexagonal ones in the basal plane or along c, second axis along [-1 2 -1 0]
Orth(d) == IF Len(d) = 3 THEN UnitF(<<1000 * d[1], 1000 * d[2], 1000 * d[3]>>)
           ELSE IF d[4] # 0 THEN <<0, 0, IF d[4] > 0 THEN 10000 ELSE -10000>>
           ELSE UnitF(<<866 * (2 * d[1] + d[2]), 1500 * d[2], 0>>)
\* corners of the triangle drawn
TriCorners(sym, up) == IF sym = "cubic" THEN << <<0, 0, 1>>, <<0, 1, 1>>, <<-1, 1, 1>> >>
    ELSE << <<0, 0, 0, 1>>, <<-1, 2, -1, 0>>, IF up THEN <<-1, 1, 0, 0>> ELSE <<0, 1, -1, 0>> >>
\* positions a direction may be shown at: on the rim both ends
Ends(v) == IF v[3] > 20 THEN {v} ELSE IF v[3] < -20 THEN {Up(v)} ELSE {v, <<-v[1], -v[2], -v[3]>>}
\* p lies on the arc of the great circle from a to b (all unit)
OnArc(a, b, p, e) ==
    LET n == Cross(a, b)  t == Dot3(a, p) \div 10000  u == Dot3(b, p) \div 10000  ab == Dot3(a, b) \div 10000
    IN /\ IF Len3(n) < 50 THEN NearSeq(p, a, 3 * e) ELSE Near(Dot3(Unit3(n), p) \div 10000, 0, e)
       /\ t >= ab - e /\ u >= ab - e
NearP(a, b, e) == Near(a[1], b[1], e) /\ Near(a[2], b[2], e)
=============================================================================
