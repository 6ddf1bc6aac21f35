----------------------------- MODULE MC_DicWarp -----------------------------
(* Warping every small label image under every small offset and orientation.    *)
EXTENDS DicGrains
CONSTANTS W, H, EW, EH, Max
VARIABLES m
Ts == [a : {<<1, 0, 0, 1>>, <<0, 1, -1, 0>>, <<-1, 0, 0, 1>>, <<2, 0, 0, 1>>}, b : {<<i, j>> : i \in {0, 1}, j \in {0, 2}}, k : {1}]
Init == \E e \in [1..(EW * EH) -> ({0, 0 - 2} \cup (1..Max))], t \in Ts : m = [w |-> W, h |-> H, ew |-> EW, eh |-> EH, elab |-> e, t |-> t]
Next == UNCHANGED m
Spec == Init /\ [][Next]_m
\* labels are consecutive, order preserving and take the same pixels as the EBSD labels
InvWarp == LET l == WarpLabels(m)  raw == Warped(m)  ln == WarpLinks(m) IN
    /\ Pos(l) = 1..Len(ln)
    /\ \A k \in DOMAIN l : IF raw[k] > 0 THEN ln[l[k]] = raw[k] ELSE l[k] = raw[k]
    /\ \A i, j \in DOMAIN ln : i < j => ln[i] < ln[j]
\* a flood grain wholly inside one EBSD grain is linked to it
InvLink == LET lab == [k \in 1..(W * H) |-> 1]  s == LinkOf(m, lab, 1) IN Cardinality(Pos(Warped(m))) = 1 /\ m.t.a = <<1, 0, 0, 1>> => s = Pos(Warped(m))
\* the reverse transform undoes the transform
InvBack == \A p \in Pix(W, H) : Back(m.t, To(m.t, p)) = p
=============================================================================
