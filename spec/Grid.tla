-------------------------------- MODULE Grid --------------------------------
(* Pixels, boundaries between pixels and regions of a map.                     *)
(* A pixel is <<x, y>>, 0 based.  Boundaries are two sets of pixels: x-kind     *)
(* separates <<x,y>> from <<x+1,y>>, y-kind separates it from <<x,y+1>>.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Ran(s) == {s[i] : i \in DOMAIN s}
Pix(w, h) == (0..(w-1)) \X (0..(h-1))
At(img, w, p) == img[p[2] * w + p[1] + 1]
InMap(w, h, p) == p[1] >= 0 /\ p[1] < w /\ p[2] >= 0 /\ p[2] < h
Raster(w, p) == p[2] * w + p[1]
\* neighbours reachable without crossing a boundary
Open(w, h, bx, by, p) ==
    {n \in { <<p[1]+1, p[2]>> } : n[1] < w /\ p \notin bx} \cup
    {n \in { <<p[1]-1, p[2]>> } : n[1] >= 0 /\ n \notin bx} \cup
    {n \in { <<p[1], p[2]+1>> } : n[2] < h /\ p \notin by} \cup
    {n \in { <<p[1], p[2]-1>> } : n[2] >= 0 /\ n \notin by}

RECURSIVE Spread(_, _, _, _, _, _)
Spread(w, h, bx, by, done, edge) ==
    IF edge = {} THEN done
    ELSE LET d2 == done \cup edge
         IN Spread(w, h, bx, by, d2, (UNION {Open(w, h, bx, by, p) : p \in edge}) \ d2)
Region(w, h, bx, by, p) == Spread(w, h, bx, by, {}, {p})

(* Regions of the pixels in S, as a sequence in raster order of first pixel.    *)
RECURSIVE RegionsFrom(_, _, _, _, _, _, _)
RegionsFrom(w, h, bx, by, left, k, acc) ==
    IF k = w * h \/ left = {} THEN acc
    ELSE LET p == << k % w, k \div w >>
         IN IF p \notin left THEN RegionsFrom(w, h, bx, by, left, k + 1, acc)
            ELSE LET r == Region(w, h, bx, by, p)
                 IN RegionsFrom(w, h, bx, by, left \ r, k + 1, Append(acc, r))
Regions(w, h, bx, by, S) == RegionsFrom(w, h, bx, by, S, 0, <<>>)

(* Grains: regions of at least min pixels, numbered in raster order.            *)
Big(regs, min) == SelectSeq(regs, LAMBDA r : Cardinality(r) >= min)
Label(regs, min, p) ==
    LET b == Big(regs, min)
    IN IF \E i \in 1..Len(b) : p \in b[i] THEN CHOOSE i \in 1..Len(b) : p \in b[i]
       ELSE IF \E i \in 1..Len(regs) : p \in regs[i] THEN -2 ELSE 0
Labels(w, h, regs, min) ==
    LET b == Big(regs, min)
        f == [p \in Pix(w, h) |-> 0]
        small == UNION {regs[i] : i \in {j \in 1..Len(regs) : Cardinality(regs[j]) < min}}
    IN [k \in 1..(w * h) |->
          LET p == << (k-1) % w, (k-1) \div w >>
          IN IF p \in small THEN -2
             ELSE LET s == {i \in 1..Len(b) : p \in b[i]} IN IF s = {} THEN 0 ELSE CHOOSE i \in s : TRUE]

(* Line segments along boundaries, in doubled coordinates.                     *)
LineX(p) == <<2*p[1]+1, 2*p[2]-1, 2*p[1]+1, 2*p[2]+1>>
LineY(p) == <<2*p[1]-1, 2*p[2]+1, 2*p[1]+1, 2*p[2]+1>>
NoDup(s) == Cardinality(Ran(s)) = Len(s)

(* Neighbours: interior boundary points between two different grains.           *)
Interior(w, h, p) == p[1] > 0 /\ p[2] > 0 /\ p[1] < w - 1 /\ p[2] < h - 1
Contacts(w, h, lab, bx, by) ==       \* <<kind, point, label here, label beyond>>
    LET cx == {<<0, p, At(lab, w, p), At(lab, w, <<p[1]+1, p[2]>>)>> : p \in {q \in bx : Interior(w, h, q)}}
        cy == {<<1, p, At(lab, w, p), At(lab, w, <<p[1], p[2]+1>>)>> : p \in {q \in by : Interior(w, h, q)}}
    IN {c \in cx \cup cy : c[3] > 0 /\ c[4] > 0 /\ c[3] # c[4]}
Beyond(kind, p) == IF kind = 0 THEN <<p[1]+1, p[2]>> ELSE <<p[1], p[2]+1>>
=============================================================================
