------------------------------ MODULE Gen_Palette ------------------------------
(* Prints the orientation palette, after checking the groups it is used with.    *)
EXTENDS Sym, Json
VARIABLE v
HR(s, t) == \* product of doubled hexagonal elements, rational and root parts
    <<[i \in 1..4 |-> Mul(RPart(s), RPart(t))[i] + 3 * Mul(SPart(s), SPart(t))[i]],
      [i \in 1..4 |-> Mul(RPart(s), SPart(t))[i] + Mul(SPart(s), RPart(t))[i]]>>
InHex(x) == \E u \in HexG : \/ \A i \in 1..4 : x[1][i] = 2 * u[i][1] /\ x[2][i] = 2 * u[i][2]
                            \/ \A i \in 1..4 : x[1][i] = -2 * u[i][1] /\ x[2][i] = -2 * u[i][2]
Parallel(p, q) == LET d == Dot(p, q) IN d * d = Norm2(p) * Norm2(q)
ASSUME Cardinality(CubicG) = 24 /\ Cardinality(HexG) = 12
ASSUME \A p, q \in CubicG : \E u \in CubicG : Parallel(Mul(p, q), u)
ASSUME \A s, t \in HexG : InHex(HR(s, t))
Init == v = 0
Next == UNCHANGED v
Spec == Init /\ [][Next]_v
Out == PrintT("PALETTE " \o ToJson(Palette))
=============================================================================
