------------------------------- MODULE DicGrains -------------------------------
(* Grains of a DIC map found from a linked EBSD map (C10).                       *)
(* A frame transform t takes <<x, y>> to (t.a . <<x, y>> + t.b) / t.k.           *)
EXTENDS Grid
RoundDiv(n, d) == (2 * n + d) \div (2 * d)                 \* d > 0, nearest
Tie(n, d) == (2 * n + d) % (2 * d) = 0                     \* exactly between two pixels
Num(t, p) == <<t.a[1] * p[1] + t.a[2] * p[2] + t.b[1], t.a[3] * p[1] + t.a[4] * p[2] + t.b[2]>>
Det(t) == t.a[1] * t.a[4] - t.a[2] * t.a[3]
Sgn(n) == IF n < 0 THEN -1 ELSE 1
\* the reverse transform, over the common denominator |det|
NumBack(t, p) == LET u == t.k * p[1] - t.b[1]  v == t.k * p[2] - t.b[2]
                 IN <<Sgn(Det(t)) * (t.a[4] * u - t.a[2] * v), Sgn(Det(t)) * (t.a[1] * v - t.a[3] * u)>>
AbsDet(t) == Sgn(Det(t)) * Det(t)
Near(n, d) == <<RoundDiv(n[1], d), RoundDiv(n[2], d)>>
To(t, p) == Near(Num(t, p), t.k)
Back(t, p) == Near(NumBack(t, p), AbsDet(t))
TiesTo(t, w, h) == \E p \in Pix(w, h) : LET n == Num(t, p) IN Tie(n[1], t.k) \/ Tie(n[2], t.k)
TiesBack(t, w, h) == \E p \in Pix(w, h) : LET n == NumBack(t, p) IN Tie(n[1], AbsDet(t)) \/ Tie(n[2], AbsDet(t))
Sample(img, w, h, p) == IF InMap(w, h, p) THEN At(img, w, p) ELSE 0
Rank(S, x) == Cardinality({y \in S : y <= x})

(* ------------------------------------------------------------ warping       *)
Warped(m) == [k \in 1..(m.w * m.h) |-> Sample(m.elab, m.ew, m.eh, To(m.t, << (k-1) % m.w, (k-1) \div m.w >>))]
Pos(img) == {v \in Ran(img) : v > 0}
WarpLabels(m) == LET raw == Warped(m)  ids == Pos(raw) IN [k \in DOMAIN raw |-> IF raw[k] > 0 THEN Rank(ids, raw[k]) ELSE raw[k]]
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE v \in S : \A u \in S : v <= u IN <<x>> \o Sorted(S \ {x})
WarpLinks(m) == Sorted(Pos(Warped(m)))                       \* EBSD label of each grain

(* ------------------------------------------------------------ flood filling *)
\* B: boundary pixels of a w by h map
Edge4(w, h, B) == {p \in Pix(w, h) : p[1] < w - 1 /\ (p \in B) # (<<p[1]+1, p[2]>> \in B)}
Edge4Y(w, h, B) == {p \in Pix(w, h) : p[2] < h - 1 /\ (p \in B) # (<<p[1], p[2]+1>> \in B)}
Fill(w, h, B) == Regions(w, h, Edge4(w, h, B), Edge4Y(w, h, B), Pix(w, h) \ B)
Touch(r, B) == {b \in B : <<b[1]-1, b[2]>> \in r \/ <<b[1], b[2]-1>> \in r}
RECURSIVE Absorb(_, _)
Absorb(rs, B) == IF rs = <<>> THEN <<>>
                 ELSE LET a == Touch(Head(rs), B) IN <<Head(rs) \cup a>> \o Absorb(Tail(rs), B \ a)
FloodRegs(w, h, B) == Absorb(Fill(w, h, B), B)
FloodLabels(w, h, B, min) ==
    LET rs == FloodRegs(w, h, B)
        b == Big(rs, min)
        small == UNION {rs[i] : i \in {j \in DOMAIN rs : Cardinality(rs[j]) < min}}
    IN [k \in 1..(w * h) |-> LET p == << (k-1) % w, (k-1) \div w >>
          IN IF p \in small THEN -2
             ELSE LET s == {i \in DOMAIN b : p \in b[i]} IN IF s = {} THEN -1 ELSE CHOOSE i \in s : TRUE]
\* the EBSD label most frequent among the EBSD pixels that fall in grain i (0: none)
LinkOf(m, lab, i) ==
    LET px == {p \in Pix(m.ew, m.eh) : At(m.elab, m.ew, p) > 0 /\ Sample(lab, m.w, m.h, Back(m.t, p)) = i}
        n(v) == Cardinality({p \in px : At(m.elab, m.ew, p) = v})
        vs == {At(m.elab, m.ew, p) : p \in px}
        best == {v \in vs : \A u \in vs : n(v) >= n(u)}
    IN IF vs = {} THEN {0} ELSE best
=============================================================================
