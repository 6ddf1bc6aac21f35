------------------------------ MODULE GrainData ------------------------------
(* Moving data between a map and its grains.  An image is a sequence of w*h      *)
(* values in raster order; a grain is the sequence of its points.                *)
EXTENDS Grid

Gather(img, w, pts) == [i \in 1..Len(pts) |-> At(img, w, pts[i])]
\* value lists of several grains put back on a map
Where(pp, p) == {g \in DOMAIN pp : \E i \in DOMAIN pp[g] : pp[g][i] = p}
Scatter(pp, vals, w, h, bg) ==
    [k \in 1..(w*h) |->
        LET p == << (k-1) % w, (k-1) \div w >>
            g == Where(pp, p)
        IN IF g = {} THEN bg
           ELSE LET x == CHOOSE y \in g : TRUE
                    i == CHOOSE j \in DOMAIN pp[x] : pp[x][j] = p
                IN vals[x][i]]
Const(v, n) == [i \in 1..n |-> v]
\* one value per selected grain (ids are 0 based, later ones win)
Fill(pp, ids, vals, w, h, bg) ==
    [k \in 1..(w*h) |->
        LET p == << (k-1) % w, (k-1) \div w >>
            s == {j \in DOMAIN ids : p \in Ran(pp[ids[j] + 1])}
        IN IF s = {} THEN bg ELSE vals[CHOOSE j \in s : \A q \in s : q <= j]]
MinX(pts) == LET s == {p[1] : p \in Ran(pts)} IN CHOOSE m \in s : \A x \in s : m <= x
MinY(pts) == LET s == {p[2] : p \in Ran(pts)} IN CHOOSE m \in s : \A x \in s : m <= x
MaxX(pts) == LET s == {p[1] : p \in Ran(pts)} IN CHOOSE m \in s : \A x \in s : m >= x
MaxY(pts) == LET s == {p[2] : p \in Ran(pts)} IN CHOOSE m \in s : \A x \in s : m >= x
BoxW(pts) == MaxX(pts) - MinX(pts) + 1
BoxH(pts) == MaxY(pts) - MinY(pts) + 1
\* a grain sized image, box corner at the origin
GrainImage(pts, vals, bg) ==
    LET sh == [i \in 1..Len(pts) |-> <<pts[i][1] - MinX(pts), pts[i][2] - MinY(pts)>>]
    IN Scatter(<<sh>>, <<vals>>, BoxW(pts), BoxH(pts), bg)
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
\* r / scale is the quotient s / n, within one unit of the last place
IsMean(r, scale, s, n) == LET d == r * n - s * scale IN d <= n /\ d >= -n
\* window average around every grain pixel over the grain's own pixels only
Coarse(pts, vals, k, p) ==
    LET near == {i \in 1..Len(pts) : pts[i][1] - p[1] \in (-k)..k /\ pts[i][2] - p[2] \in (-k)..k}
    IN <<SumSeq([i \in 1..Len(pts) |-> IF i \in near THEN vals[i] ELSE 0]), Cardinality(near)>>
\* nearest integer to s / n, either one on a tie
Rounds(s, n) == {r \in ((s \div n) - 1)..((s \div n) + 1) : 2 * (r * n - s) <= n /\ 2 * (s - r * n) <= n}
=============================================================================
