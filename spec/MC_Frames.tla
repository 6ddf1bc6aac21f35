------------------------------ MODULE MC_Frames ------------------------------
(* Every history of linking three frames; transforms are inverse to each other  *)
(* and compose.                                                                 *)
EXTENDS Frames
CONSTANTS MaxLinks
VARIABLES s, n
T1 == [a |-> <<1, 0, 0, 1>>, b |-> <<0, 0>>, k |-> 1]
T2 == [a |-> <<0, 1, -1, 0>>, b |-> <<3, 5>>, k |-> 1]
T3 == [a |-> <<3, 1, 0, 2>>, b |-> <<1, -2>>, k |-> 4]
Init == n = 0 /\ s = [NewFrames EXCEPT !.t = <<T1, T2, T3>>]
Next == n < MaxLinks /\ n' = n + 1 /\ \E f, g \in 1..3, ty \in {"affine", "polynomial"} : f # g /\ s' = Link(s, f, g, ty)
Spec == Init /\ [][Next]_<<s, n>>
InvSym == \A f, g \in 1..3 : f # g => (Asked(s, f, g) <=> Asked(s, g, f)) /\ (Linked(s, f, g) <=> Linked(s, g, f))
InvOnce == \A r, q \in s.rel : r.f = q.f /\ r.g = q.g => r = q
InvLinked == Cardinality(s.rel) <= n /\ (n > 0 => s.rel # {})
\* there and back, and through a third frame
InvBack == \A f, g \in 1..3, p \in Pix(3, 3) : LET m == Combo(s, f, g, p, 1)  d == ComboDen(s, f, g, 1)
               IN LET b == Combo(s, g, f, m, d)  e == ComboDen(s, g, f, d) IN b = <<p[1] * e, p[2] * e>>
InvChain == \A f, g, h \in 1..3 : LET p == <<2, 1>>  m == Combo(s, f, g, p, 1)  d == ComboDen(s, f, g, 1)
               IN LET b == Combo(s, g, h, m, d)  e == ComboDen(s, g, h, d)  w == Combo(s, f, h, p, 1)  z == ComboDen(s, f, h, 1)
                  IN b[1] * z = w[1] * e /\ b[2] * z = w[2] * e
=============================================================================
