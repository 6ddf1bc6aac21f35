------------------------------- MODULE MC_Pole -------------------------------
(* Laws of the projections over small integer directions of the upper half.          *)
EXTENDS Pole
CONSTANTS N
VARIABLES v, w
Vs == {x \in (-N..N) \X (-N..N) \X (0..N) : x # <<0, 0, 0>>}
Init == v \in Vs /\ w \in Vs
Next == UNCHANGED <<v, w>>
Spec == Init /\ [][Next]_<<v, w>>
U == Unit3(<<1000 * v[1], 1000 * v[2], 1000 * v[3]>>)
W == Unit3(<<1000 * w[1], 1000 * w[2], 1000 * w[3]>>)
Kinds == {"stereo", "lambert"}
InvBack == \A k \in Kinds : NearSeq(Unproj(k, Proj(k, U)), U, 6)
InvDisc == R2(Proj("stereo", U)) <= 10010 /\ R2(Proj("lambert", U)) <= 20020
\* same circle of latitude, same radius; further from the pole, further out; azimuth kept
InvOrder == \A k \in Kinds : /\ U[3] = W[3] => Near(R2(Proj(k, U)), R2(Proj(k, W)), 8)
                             /\ U[3] > W[3] + 10 => R2(Proj(k, U)) < R2(Proj(k, W))
                             /\ LET p == Proj(k, U) IN p[1] * U[2] >= -20000 /\ p[2] * U[1] <= 20000 /\ Near((p[1] * U[1] + p[2] * U[2]) \div 10000, 0, 4)
\* equal area: r^2 = 2 (1 - cos)
InvArea == Near(R2(Proj("lambert", U)), 2 * (10000 - U[3]), 10)
\* the points of an arc: its ends lie on it, and so does the middle
InvArc == (Dot3(U, W) > -90000000) =>
    /\ OnArc(U, W, U, 12) /\ OnArc(U, W, W, 12)
    /\ OnArc(U, W, Unit3(<<U[1] + W[1], U[2] + W[2], U[3] + W[3]>>), 14)
\* fundamental directions lie on the inner side of each arc of the triangle, and the corners at its corners
T == TriCorners("cubic", TRUE)
InvInside == LET f == FundCubic(U) IN
    /\ \A i \in 1..3 : LET a == Orth(T[i])  b == Orth(T[(i % 3) + 1])  c == Orth(T[((i + 1) % 3) + 1])
                           n == Unit3(Cross(a, b)) IN Dot3(n, f) * (IF Dot3(n, c) > 0 THEN 1 ELSE -1) >= -90000
    /\ \A i \in 1..3 : NearSeq(FundCubic(Orth(T[i])), Orth(T[i]), 3)
InvHex == \A up \in BOOLEAN : \A i \in 1..3 : LET o == Orth(TriCorners("hexagonal", up)[i]) IN FundOk("hexagonal", up, o, o, 8)
=============================================================================
