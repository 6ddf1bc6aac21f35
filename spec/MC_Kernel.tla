------------------------------ MODULE MC_Kernel ------------------------------
(* Laws of the filter (edges survive, uniform maps stay) and of the Nye tensor       *)
(* (zero in uniform maps, blind to which equivalent represents a pixel).             *)
EXTENDS Kernel
CONSTANTS Part, Idx, N
VARIABLES qs, cut
vars == <<qs, cut>>
Cuts == {<<k, i, 1>> : k \in {"col", "row"}, i \in 1..N - 1} \cup {<<k, i, j>> : k \in {"corner", "pixel"}, i, j \in 1..N - 1}
Init == IF Part = "filter" THEN qs \in [1..2 -> Idx] /\ cut \in Cuts
        ELSE qs \in [1..4 -> Idx] /\ cut = <<"col", 1, 1>>
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
U == TLCEval([i \in DOMAIN qs |-> UnitF(Palette[qs[i]])])
Side(p) == CASE cut[1] = "col" -> p[1] < cut[2] [] cut[1] = "row" -> p[2] < cut[2]
             [] cut[1] = "corner" -> p[1] < cut[2] /\ p[2] < cut[3] [] OTHER -> p = <<cut[2], cut[3]>>
Img == TLCEval([k \in 1..N * N |-> IF Side(<<(k-1) % N, (k-1) \div N>>) THEN U[1] ELSE IF k % 2 = 0 THEN U[2] ELSE Neg(U[2])])
Px == (0..N - 1) \X (0..N - 1)
C30d == HalfTol(60)
D12 == Min2(10000, Abs(Dot(U[1], U[2])) \div 10000)
InvFilter == Part = "filter" => \A p \in Px :
    LET F == Filtered(Img, N, N, p, C30d, 20) IN
    /\ F # {}
    /\ D12 <= C30d => \A f \in F : NearUpTo(f, At(Img, N, p), 4)                 \* sharp edges survive
    /\ \A f \in F : \A u \in {U[1], U[2]} : Abs(Dot(f, u)) \div 10000 >= D12 - 4     \* never beyond what was there
InvNye == Part = "nye" =>
    /\ \A s \in {"cubic", "hexagonal"} :
         /\ \A p \in (0..1) \X (0..1) : p # <<0, 0>> => Nye(s, U, 2, 2, p) = {Zero33}
         /\ (qs[1] = qs[2] /\ qs[1] = qs[3]) => \E a \in Nye(s, U, 2, 2, <<0, 0>>) : Near33(a, Zero33, 6)
    /\ \A k \in 1..3 : LET g == <<5000, 5000, 5000, 5000>>  V == [U EXCEPT ![k] = Neg(MulF(g, U[k]))] IN
         \E a \in Nye("cubic", U, 2, 2, <<0, 0>>), b \in Nye("cubic", V, 2, 2, <<0, 0>>) : Near33(a, b, 20)
    /\ \A k \in 1..3 : LET g == <<8660, 0, 0, 5000>>  V == [U EXCEPT ![k] = MulF(g, U[k])] IN
         \E a \in Nye("hexagonal", U, 2, 2, <<0, 0>>), b \in Nye("hexagonal", V, 2, 2, <<0, 0>>) : Near33(a, b, 20)
=============================================================================
