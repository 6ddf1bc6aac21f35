------------------------------- MODULE Kernel -------------------------------
(* Neighbourhood operations on orientation maps: the edge preserving (Kuwahara)    *)
(* filter and the Nye tensor.  Images are row by row, positions are <<x, y>> from   *)
(* zero; quaternions and rotations in ten-thousandths.                              *)
EXTENDS Ori
At(img, w, p) == img[p[2] * w + p[1] + 1]

(* The filter: eight 3x3 windows that hold the pixel, in their stated order.        *)
Windows == << <<-2, -2>>, <<-1, -2>>, <<0, -2>>, <<0, -1>>, <<0, 0>>, <<-1, 0>>, <<-2, 0>>, <<-2, -1>> >>
Inner(w, h, p) == p[1] >= 2 /\ p[2] >= 2 /\ p[1] <= w - 3 /\ p[2] <= h - 3
Cs(img, w, p, q) == Min2(10000, Abs(Dot(At(img, w, p), At(img, w, q))) \div 10000)
\* (t2: tolerance in half degrees, even): cosine of half of the tolerance
HalfTol(t2) == Cos(t2 \div 2)
\* the 5x5 surroundings, seen from the pixel: cosines, and orientations with the sign nearest to the pixel's
Around(p) == {<<p[1] + i, p[2] + j>> : i, j \in -2..2}
Cosines(img, w, p) == TLCEval([q \in Around(p) |-> Cs(img, w, p, q)])
Signed(img, w, p) == TLCEval([q \in Around(p) |-> LET a == At(img, w, q) IN IF Dot(At(img, w, p), a) < 0 THEN Neg(a) ELSE a])
Sum9(f, o) == f[o] + f[<<o[1]+1, o[2]>>] + f[<<o[1]+2, o[2]>>]
            + f[<<o[1], o[2]+1>>] + f[<<o[1]+1, o[2]+1>>] + f[<<o[1]+2, o[2]+1>>]
            + f[<<o[1], o[2]+2>>] + f[<<o[1]+1, o[2]+2>>] + f[<<o[1]+2, o[2]+2>>]
Corner(p, k) == <<p[1] + Windows[k][1], p[2] + Windows[k][2]>>
\* the results at a pixel: of the window(s) with the greatest mean cosine over the pixels within
\* the tolerance (e: resolution of means, in hundred-thousandths)
Filtered(img, w, h, p, c, e) ==
    IF ~Inner(w, h, p) THEN {At(img, w, p)}
    ELSE LET cs == Cosines(img, w, p)
             sg == Signed(img, w, p)
             in == TLCEval([q \in Around(p) |-> IF cs[q] > c THEN 1 ELSE 0])
             cin == TLCEval([q \in Around(p) |-> in[q] * cs[q]])
             cnt == TLCEval([k \in 1..8 |-> Sum9(in, Corner(p, k))])
             m == TLCEval([k \in 1..8 |-> (10 * Sum9(cin, Corner(p, k))) \div cnt[k]])
             best == MaxOf({m[k] : k \in 1..8})
             comp(i) == TLCEval([q \in Around(p) |-> in[q] * sg[q][i]])
             sums(k) == LET o == Corner(p, k) IN <<Sum9(comp(1), o), Sum9(comp(2), o), Sum9(comp(3), o), Sum9(comp(4), o)>>
         IN {Normalise(sums(k), cnt[k]) : k \in {j \in 1..8 : m[j] >= best - e}}
\* a neighbour so close to the tolerance that rounding decides
Undecided(img, w, h, p, c, e) == Inner(w, h, p) /\ \E q \in Around(p) : Near(Cs(img, w, p, q), c, e)

(* Nye tensor: differences of the lattice rotation to the right and the lower       *)
(* neighbour, each taken as the equivalent nearest to the pixel.                    *)
RotF(q) == LET r == RotN(q) IN [i \in 1..3 |-> [j \in 1..3 |-> Round4(r[i][j])]]
Unity == << <<10000, 0, 0>>, <<0, 10000, 0>>, <<0, 0, 10000>> >>
MinusI(r) == [i \in 1..3 |-> [j \in 1..3 |-> r[i][j] - Unity[i][j]]]
Betas(sym, a, b) == {MinusI(RotF(MulF(Conj(x), a))) : x \in Closest(sym, a, b)}
NyeOf(bx, by) == [i \in 1..3 |-> << -by[i][3], bx[i][3], by[i][1] - bx[i][2] >>]
Zero33 == [i \in 1..3 |-> <<0, 0, 0>>]
\* tensors (times Burgers vector and step) a pixel may get
Nye(sym, img, w, h, p) ==
    IF p[1] = w - 1 \/ p[2] = h - 1 THEN {Zero33}
    ELSE {NyeOf(bx, by) : bx \in Betas(sym, At(img, w, p), At(img, w, <<p[1] + 1, p[2]>>)),
                          by \in Betas(sym, At(img, w, p), At(img, w, <<p[1], p[2] + 1>>))}
L1(a) == LET f(i) == Abs(a[i][1]) + Abs(a[i][2]) + Abs(a[i][3]) IN f(1) + f(2) + f(3)
Near33(a, b, e) == \A i \in 1..3 : NearSeq(a[i], b[i], e)
=============================================================================
