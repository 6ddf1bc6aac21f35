------------------------------- MODULE MC_Quat -------------------------------
(* Laws of the quaternion model on every pair of quaternions from a box.         *)
EXTENDS Quat
CONSTANTS Lo, Hi, Half
Box == (-Lo)..Hi
VARIABLES p, q, pc
vars == <<p, q, pc>>
Qs == {x \in Box \X Box \X Box \X Box : Norm2(x) > 0 /\ (Half => FirstPos(x))}
V3 == {<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>, <<1, -2, 3>>}
Init == p \in Qs /\ q \in Qs /\ pc = 0
Swap == pc < 1 /\ p' = Conj(q) /\ q' = p /\ pc' = pc + 1
Next == Swap
Spec == Init /\ [][Next]_vars
InvNorm == Norm2(Mul(p, q)) = Norm2(p) * Norm2(q)
InvConj == Conj(Mul(p, q)) = Mul(Conj(q), Conj(p))
InvUndo == Mul(Conj(p), p) = <<Norm2(p), 0, 0, 0>>
InvRot == RotN(Mul(p, q)) = MatMul(RotN(p), RotN(q))
InvSandwich == \A v \in V3 : Sandwich(p, v) = MatVec(RotN(p), v)
InvCompose == \A v \in V3 : MatVec(RotN(Mul(p, q)), v) = MatVec(RotN(p), MatVec(RotN(q), v))
InvSign == RotN(Neg(p)) = RotN(p)
\* disorientation: symmetric, sign free, and the same for equivalents
Gens == {<<1, 1, 0, 0>>, <<1, 0, 0, 1>>, <<1, 1, 1, 1>>}      \* generate the cubic group
InvDis == LET d == CubicD(p, q) IN
          /\ d = CubicD(q, p) /\ CubicD(Neg(p), q) = d /\ d <= 4 * Norm2(p) * Norm2(q)
          /\ \A s \in Gens : CubicD(p, Mul(s, q)) = Norm2(s) * d
          /\ (d = 4 * Norm2(p) * Norm2(q)) <=>
               (\E s \in CubicG : LET x == Dot(p, Mul(s, q)) IN x * x = Norm2(p) * Norm2(q) * Norm2(s))
InvHex == LET a == HexAB(p, q)  b == HexAB(q, p)
              alo == MaxOf({HexSqLo(x) : x \in a})  ahi == MaxOf({HexSqHi(x) : x \in a})
              blo == MaxOf({HexSqLo(x) : x \in b})  bhi == MaxOf({HexSqHi(x) : x \in b})
          IN alo <= bhi /\ blo <= ahi /\ alo <= 4000 * Norm2(p) * Norm2(q)
ASSUME TrigOk
ASSUME \A e \in {<<0, 0, 0>>, <<90, 0, 0>>, <<30, 60, 90>>, <<350, 180, 10>>, <<123, 45, 267>>} :
         Near(Dot(EulerF(e), EulerF(e)) \div 10000, 10000, 8)
\* the passive convention: a crystal turned by +90 about z sees sample x along crystal -y
ASSUME MatVec(RotN(AxisF(4, 90)), <<1, 0, 0>>)[2] < -90000000
=============================================================================
