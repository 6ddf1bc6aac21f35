------------------------------ MODULE MC_Strain ------------------------------
(* Laws on every affine displacement field with small integer gradients.       *)
EXTENDS Strain
CONSTANTS W, H, K
VARIABLE g
D == (-K)..K
Init == g \in [a : D, p : D, q : D, c : D, r : D, s : D, b : {1, 2}]
Next == UNCHANGED g
Spec == Init /\ [][Next]_g
Fld(a, p, q) == [k \in 1..(W * H) |-> a + p * ((k - 1) % W) + q * ((k - 1) \div W)]
R == [w |-> W, h |-> H, b |-> g.b, div |-> 1, u |-> Fld(g.a, g.p, g.q), v |-> Fld(g.c, g.r, g.s)]
R0 == [R EXCEPT !.u = Fld(0, g.p, g.q), !.v = Fld(0, g.r, g.s)]
Px == (0..W-1) \X (0..H-1)
InvUniform == \A z \in Px : FAt(R, z[1], z[2]) = <<<<2*g.b + 2*g.p, 2*g.q>>, <<2*g.r, 2*g.b + 2*g.s>>>>
InvShift == \A z \in Px : FAt(R, z[1], z[2]) = FAt(R0, z[1], z[2])
InvRigid == g.p = 0 /\ g.q = 0 /\ g.r = 0 /\ g.s = 0 => \A z \in Px : EAt(R, z[1], z[2]) = <<<<0, 0>>, <<0, 0>>>> /\ MAt(R, z[1], z[2]) = 0
InvTurn == (g.b = 1 /\ g.p = -1 /\ g.q = -1 /\ g.r = 1 /\ g.s = -1) => \A z \in Px : EAt(R, z[1], z[2]) = <<<<0, 0>>, <<0, 0>>>>
InvSym == \A z \in Px : LET e == EAt(R, z[1], z[2]) IN e[1][2] = e[2][1] /\ MAt(R, z[1], z[2]) >= 0
\* one-dimensional stretch: 2 E = (1 + p)^2 - 1
InvStretch == g.q = 0 /\ g.r = 0 /\ g.s = 0 => \A z \in Px : LET e == EAt(R, z[1], z[2])
              IN e[1][1] = 4 * (2 * g.b * g.p + g.p * g.p) /\ e[2][2] = 0 /\ e[1][2] = 0
=============================================================================
