-------------------------------- MODULE MC_Ang --------------------------------
(* Small EDAX files: phases in any order, grids, angles around the quarter turn.  *)
EXTENDS EbsdFile, TLC
VARIABLES f
P(n, s) == [no |-> n, name |-> "p", sym |-> s, lp |-> <<3000, 3000, 3000, 90000, 90000, 90000>>]
Row(a, ph, k) == <<a, 100 + k, 200 + k, 0, 0, 1000 * k, 500, ph, 1, 10 * k>>
Angles == {0, 1, Quarter4 - 1, Quarter4, Quarter4 + 1, 31416, Turn - 1}
Init == \E n1, n2 \in 1..2, s1, s2 \in {"43", "6/mmm", "1"}, a \in Angles, p \in 0..1, g \in {"SqrGrid", "HexGrid"}, n \in 1..3 :
    f = [phases |-> <<P(n1, s1), P(n2, s2)>>, grid |-> g, w |-> 2, h |-> 1, step |-> 1, rows |-> [k \in 1..n |-> Row(a, p, k)]]
Next == UNCHANGED f
Spec == Init /\ [][Next]_f
InvPlace == AngOk(f) => LET m == AngMap(f) IN m.shape = <<1, 2>> /\ \A k \in 1..2 : m.iq[k] = 1000 * k /\ m.fit[k] = 10 * k /\ m.eul[2][k] = 100 + k
InvRange == AngOk(f) => \A k \in 1..2 : AngMap(f).eul[1][k] \in 0..(Turn - 1) /\ (AngMap(f).eul[1][k] + Quarter4 - f.rows[k][1]) % Turn = 0
InvPhase == AngOk(f) => LET m == AngMap(f) IN \A k \in 1..2 : m.ph[k] \in DOMAIN m.phases /\ m.phases[m.ph[k]].sym \in {"cubic", "hexagonal"}
InvRefuse == (f.grid = "HexGrid" \/ Len(f.rows) # 2 \/ f.phases[1].no # 1) => ~AngOk(f)
=============================================================================
