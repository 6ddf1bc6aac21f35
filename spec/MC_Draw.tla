------------------------------- MODULE MC_Draw -------------------------------
(* Laws of unit cells (blind to the choice of equivalent) and of band detection.     *)
EXTENDS Draw
CONSTANTS Part, Idx, As, MaxB
VARIABLES q, bands
vars == <<q, bands>>
Init == IF Part = "cell" THEN q \in {Palette[i] : i \in Idx} /\ bands = <<>>
        ELSE q = <<1, 0, 0, 0>> /\ bands \in UNION {[1..n -> As \X {100, 85, 40}] : n \in 1..MaxB}
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
U == TLCEval(UnitF(q))
InvCell == Part = "cell" => \A sym \in {"cubic", "hexagonal"}, oi \in BOOLEAN :
    LET c == TLCEval(Cell(sym, oi, U)) IN
    /\ Cardinality(c) = IF sym = "cubic" THEN 6 ELSE 8
    /\ \A g \in SymF(sym) : SameCell(c, Cell(sym, oi, MulF(g, U)), 8)
    /\ \A f \in c : \A i \in DOMAIN f : LET n == f[i] IN Near(ISqrt(Dot3(n, n)), IF sym = "cubic" THEN 2165 ELSE 2324, 6)
\* turning the prism by half its angle is not the same cell
InvOI == Part = "cell" => ~SameCell(Cell("hexagonal", TRUE, U), Cell("hexagonal", FALSE, U), 200)
InvBands == Part = "bands" => \A t \in {30, 85}, d \in {8, 30} :
    LET F == Found(bands, t, d) IN
    /\ (Strong(bands, t) # {} /\ \A i, j \in DOMAIN bands : i # j => bands[i][1] # bands[j][1]) => F # {}
    /\ \A D \in F : D \subseteq Strong(bands, t)
    /\ Strong(bands, 85) \subseteq Strong(bands, 30)
    /\ (\A i, j \in DOMAIN bands : i # j => Abs(bands[i][1] - bands[j][1]) >= d) => F = {Strong(bands, t)}
=============================================================================
