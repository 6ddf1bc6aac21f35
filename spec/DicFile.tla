------------------------------- MODULE DicFile -------------------------------
(* Which DIC files are accepted and what map they give.  A file is the list of  *)
(* its rows <<x2, y2, u, v>> (coordinates doubled) with its header.             *)
EXTENDS Integers, Sequences, FiniteSets
Xs(f) == {f.rows[i][1] : i \in DOMAIN f.rows}
Ys(f) == {f.rows[i][2] : i \in DOMAIN f.rows}
Min(S) == CHOOSE m \in S : \A x \in S : m <= x
Max(S) == CHOOSE m \in S : \A x \in S : m >= x
\* the header's (or file's own) spacing, doubled
Reg(S, b2) == \A x \in S : (x - Min(S)) % b2 = 0
Span(S, b2) == (Max(S) - Min(S)) \div b2 + 1
Shape(f, b2) == <<Span(Ys(f), b2), Span(Xs(f), b2)>>
Full(f, b2) == /\ Reg(Xs(f), b2) /\ Reg(Ys(f), b2) /\ Cardinality(Xs(f)) = Span(Xs(f), b2) /\ Cardinality(Ys(f)) = Span(Ys(f), b2)
               /\ Len(f.rows) = Cardinality(Xs(f)) * Cardinality(Ys(f))
\* rows in raster order; yup: rows of the grid from the highest y down
Raster(f, b2, yup) == LET w == Span(Xs(f), b2)  h == Span(Ys(f), b2) IN
    \A k \in DOMAIN f.rows : LET j == (k - 1) % w  i == (k - 1) \div w IN
        /\ f.rows[k][1] = Min(Xs(f)) + j * b2
        /\ f.rows[k][2] = (IF yup THEN Max(Ys(f)) - i * b2 ELSE Min(Ys(f)) + i * b2)
Headed(f) == f.fmt \in {"davis", "openpivbinary"}
PyVale(f) == f.fmt \in {"pyvale-csv", "pyvale-binary"}
\* b2: the true spacing of the file, known to whoever wrote it
Good(f) == /\ Full(f, f.b2) /\ Span(Xs(f), f.b2) > 1 /\ Span(Ys(f), f.b2) > 1
           /\ Raster(f, f.b2, FALSE) \/ (f.fmt # "davis" /\ Raster(f, f.b2, TRUE))
           /\ Headed(f) => 2 * f.hb = f.b2 /\ f.hshape = Shape(f, f.b2)
           /\ f.fmt = "openpiv" => 2 * Min(Xs(f)) = f.b2 /\ 2 * Min(Ys(f)) = f.b2
\* the declared grid and the one in the file contradict each other, or the spacings do
Wrong(f) == \/ Headed(f) /\ Full(f, f.b2) /\ (2 * f.hb # f.b2 \/ f.hshape # Shape(f, f.b2))
            \/ Headed(f) /\ f.hshape[1] * f.hshape[2] # Len(f.rows)
            \/ f.badspacing                                              \* x and y step differ, rows in raster order
            \/ f.fmt = "openpiv" /\ Full(f, f.b2) /\ (Min(Xs(f)) >= 2 * f.b2 \/ Min(Ys(f)) >= 2 * f.b2)
            \/ PyVale(f) /\ f.offgrid
MapOf(f) == LET sh == Shape(f, f.b2)
                pos(k) == <<Min(Xs(f)) + ((k - 1) % sh[2]) * f.b2, Min(Ys(f)) + ((k - 1) \div sh[2]) * f.b2>>
                has(p) == \E i \in DOMAIN f.rows : f.rows[i][1] = p[1] /\ f.rows[i][2] = p[2]
                row(p) == f.rows[CHOOSE i \in DOMAIN f.rows : f.rows[i][1] = p[1] /\ f.rows[i][2] = p[2]]
            IN [shape |-> sh, b2 |-> f.b2, x |-> [k \in 1..(sh[1] * sh[2]) |-> pos(k)[1]], y |-> [k \in 1..(sh[1] * sh[2]) |-> pos(k)[2]],
                u |-> [k \in 1..(sh[1] * sh[2]) |-> IF has(pos(k)) THEN row(pos(k))[3] ELSE 0],
                v |-> [k \in 1..(sh[1] * sh[2]) |-> IF has(pos(k)) THEN row(pos(k))[4] ELSE 0]]
=============================================================================
