------------------------------- MODULE Strain -------------------------------
(* Deformation gradient, Green strain and effective shear of a displacement    *)
(* field.  Displacements are integers (units of 1/div), b is the grid spacing; *)
(* with S = 2 b div all of S F, 2 S^2 E are integers.                          *)
EXTENDS Integers, Sequences
At(u, w, x, y) == u[y * w + x + 1]
\* twice the derivative in grid steps: central inside, one sided on the edges
DX(u, w, h, x, y) == IF x = 0 THEN 2 * (At(u, w, 1, y) - At(u, w, 0, y))
                     ELSE IF x = w - 1 THEN 2 * (At(u, w, x, y) - At(u, w, x - 1, y)) ELSE At(u, w, x + 1, y) - At(u, w, x - 1, y)
DY(u, w, h, x, y) == IF y = 0 THEN 2 * (At(u, w, x, 1) - At(u, w, x, 0))
                     ELSE IF y = h - 1 THEN 2 * (At(u, w, x, y) - At(u, w, x, y - 1)) ELSE At(u, w, x, y + 1) - At(u, w, x, y - 1)
Scale(b, div) == 2 * b * div
FAt(r, x, y) == LET s == Scale(r.b, r.div) IN
    << <<s + DX(r.u, r.w, r.h, x, y), DY(r.u, r.w, r.h, x, y)>>, <<DX(r.v, r.w, r.h, x, y), s + DY(r.v, r.w, r.h, x, y)>> >>
EAt(r, x, y) == LET f == FAt(r, x, y)  s == Scale(r.b, r.div)
                    p(i, j) == f[1][i] * f[1][j] + f[2][i] * f[2][j]
                IN << <<p(1, 1) - s * s, p(1, 2)>>, <<p(2, 1), p(2, 2) - s * s>> >>
\* (4 S^2 max shear)^2
MAt(r, x, y) == LET e == EAt(r, x, y) IN (e[1][1] - e[2][2]) * (e[1][1] - e[2][2]) + 4 * e[1][2] * e[1][2]
=============================================================================
