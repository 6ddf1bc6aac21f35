----------------------------- MODULE MC_DicFile -----------------------------
(* Every ordering of the rows of a small grid gives the same map, good files    *)
(* are never wrong ones, and the map contains every row of the file.            *)
EXTENDS DicFile, TLC
CONSTANTS W, H
VARIABLES f
N == W * H
Row(k) == <<3 + ((k - 1) % W) * 6, 3 + ((k - 1) \div W) * 6, 10 * k, 100 - k>>
Up(k) == << Row(k)[1], 3 + (H - 1 - ((k - 1) \div W)) * 6, 10 * k, 100 - k>>
Base(fmt, rows, hb, hs) == [fmt |-> fmt, rows |-> rows, hb |-> hb, hshape |-> hs, b2 |-> 6, badspacing |-> FALSE, offgrid |-> FALSE]
Perms == {p \in [1..N -> 1..N] : \A i, j \in 1..N : i # j => p[i] # p[j]}
Init == \E p \in Perms, fmt \in {"davis", "openpiv", "openpivbinary", "pyvale-csv"}, hb \in {3, 2}, hs \in {<<H, W>>, <<W, H>>, <<H, W + 1>>} :
            f = Base(fmt, [i \in 1..N |-> Row(p[i])], hb, hs)
Next == UNCHANGED f
Spec == Init /\ [][Next]_f
InvMap == LET m == MapOf(f) IN /\ m.shape = <<H, W>> /\ \A i \in DOMAIN f.rows : \E k \in DOMAIN m.u : <<m.x[k], m.y[k], m.u[k], m.v[k]>> = f.rows[i]
                               /\ m = MapOf([f EXCEPT !.rows = [i \in 1..N |-> Row(i)]])
InvApart == ~(Good(f) /\ Wrong(f))
InvGood == Good(f) /\ Raster(f, 6, FALSE) => f.rows = [i \in 1..N |-> Row(i)]
=============================================================================
