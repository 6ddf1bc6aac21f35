-------------------------------- MODULE Draw --------------------------------
(* What is drawn of a crystal: its unit cell as it lies in the sample, slip traces    *)
(* as lines on a grain, and the slip bands found in its strain.                        *)
(* Lengths and unit vectors in ten-thousandths, angles in degrees.                     *)
EXTENDS Ori
\* crystal to sample for a unit quaternion (ten-thousandths)
ToSample(q, v) == LET m == RotN(q) IN [i \in 1..3 |-> DivR(Round4(m[1][i]) * v[1] + Round4(m[2][i]) * v[2] + Round4(m[3][i]) * v[3], 10000)]
\* faces as cyclic sequences of corners in the crystal: cube of a quarter; prism with its edges through
\* the a axes (second axis along one of them), or turned by half its angle
Cube(f) == [i \in 1..4 |-> LET a == f[1]  s == f[2]  u == IF i \in {2, 3} THEN 1250 ELSE -1250  v == IF i \in {3, 4} THEN 1250 ELSE -1250
                           IN [k \in 1..3 |-> IF k = a THEN s * 1250 ELSE IF k = (a % 3) + 1 THEN u ELSE v]]
HexC(k, s, oi) == <<(1800 * Cos(120 * k + (IF oi THEN 60 ELSE 0))) \div 10000, (1800 * Sin(120 * k + (IF oi THEN 60 ELSE 0))) \div 10000, s * 1470>>
CellFaces(sym, oi) ==
    IF sym = "cubic" THEN {Cube(<<a, s>>) : a \in 1..3, s \in {1, -1}}
    ELSE {[i \in 1..6 |-> HexC(i, s, oi)] : s \in {1, -1}}
         \cup {<<HexC(k, 1, oi), HexC(k + 1, 1, oi), HexC(k + 1, -1, oi), HexC(k, -1, oi)>> : k \in 0..5}
Cell(sym, oi, q) == {[i \in DOMAIN f |-> ToSample(q, f[i])] : f \in CellFaces(sym, oi)}
\* the same polygon, wherever it starts and whichever way it runs
SamePoly(f, g, e) == Len(f) = Len(g) /\ \E s \in 0..Len(f) - 1 : \E d \in {1, -1} :
    \A i \in DOMAIN f : NearSeq(f[i], g[((s + d * i) % Len(g)) + 1], e)
SameCell(a, b, e) == /\ \A f \in a : \E g \in b : SamePoly(f, g, e)
                     /\ \A g \in b : \E f \in a : SamePoly(f, g, e)

\* lines through a point at an angle, turned from upwards towards the left; upper half only when asked
Trace(a) == << -Sin(2 * a), Cos(2 * a)>>
SameLine(u, v, e) == (Near(u[1], v[1], e) /\ Near(u[2], v[2], e)) \/ (Near(u[1], -v[1], e) /\ Near(u[2], -v[2], e))
\* drawn through the point asked for, or the middle of the grain's box (in pixels of the grain)
PlaceOk(at, pos, box) == IF pos # <<>> THEN at = pos ELSE \A k \in 1..2 : Near(2 * at[k], box[k + 2] - box[k], 1)
ColourOf(cols, i) == cols[Min2(i, Len(cols))]

\* bands <<angle, strength>>: strong ones are found unless too close to one at least as strong
Strong(bands, thres) == {i \in DOMAIN bands : bands[i][2] = 100 \/ (bands[i][2] = 85 /\ thres <= 30)}
Found(bands, thres, dist) ==
    LET S == Strong(bands, thres)
        close(i, j) == Abs(bands[i][1] - bands[j][1]) < dist
    IN {D \in SUBSET S : /\ \A i, j \in D : i # j => ~close(i, j)
                         /\ \A i \in S \ D : \E j \in D : close(i, j) /\ bands[j][2] >= bands[i][2]}
FoundOk(r, bands, thres, dist) ==    \* r: reported angles (tenths), ascending
    \E D \in Found(bands, thres, dist) : Cardinality(D) = Len(r) /\ \A i \in D : \E k \in DOMAIN r : Near(r[k], 10 * bands[i][1], 25)
=============================================================================
