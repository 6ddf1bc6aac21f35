----------------------------- MODULE MC_DicView -----------------------------
EXTENDS DicView, Json, Randomization, SequencesExt
CONSTANTS W, H, MaxSteps, Gen
VARIABLES s, n, hist, world
vars == <<s, n, hist, world>>
C == {None, 0, 1} \cup (IF Gen THEN {2, 3} ELSE {})
P0 == <<<<1, 1>>, <<0, 2>>>>
Full(k) == [i \in 1..(W * H * k * k) |-> i]
ItPlain == [bin |-> 1, cropped |-> FALSE, exempt |-> FALSE, full |-> Full(1), fw |-> W, fh |-> H]
ItBin == [bin |-> 2, cropped |-> FALSE, exempt |-> TRUE, full |-> Full(2), fw |-> 2*W, fh |-> 2*H]
Crops == [op : {"crop"}, l : C, r : C, t : C, b : C, upd : BOOLEAN]
Ok(o) == Legal(s, Win(Pick(o.l, s.win.l), Pick(o.r, s.win.r), Pick(o.t, s.win.t), Pick(o.b, s.win.b)))
Few == {RandomSubset(k, ViewPx(s)) : k \in {i \in {0, 1, 3, 9} : i <= VW(s) * VH(s)}} \cup {ViewPx(s)}
Do(o) == n < MaxSteps /\ s' = StepV(s, o, ItPlain).st /\ n' = n + 1 /\ hist' = (IF Gen THEN Append(hist, o) ELSE hist)
CropA == \E o \in (IF Gen THEN RandomSubset(40, Crops) ELSE Crops) : Ok(o) /\ Do(o)
             /\ world' = (IF o.upd THEN world ELSE [i \in DOMAIN world |-> <<world[i][1] + s'.win.l - s.win.l, world[i][2] + s'.win.t - s.win.t>>])
MaskA == \E m \in (IF Gen THEN Few ELSE SUBSET ViewPx(s)), d \in 0..2 : Do([op |-> "mask", px |-> SetToSeq(m), dil |-> d]) /\ UNCHANGED world
Unmask == Do([op |-> "unmask"]) /\ UNCHANGED world
BadMask == Do([op |-> "badmask"]) /\ UNCHANGED world
Init == s = NewView(W, H, P0) /\ n = 0 /\ hist = <<>> /\ world = P0
Next == CropA \/ MaskA \/ Unmask \/ BadMask
Spec == Init /\ [][Next]_vars
Bound == \A i \in DOMAIN s.pts : s.pts[i][1] \in -1..3 /\ s.pts[i][2] \in -1..3
InvShape == LET v == Show(s, ItPlain)  b == Show(s, ItBin) IN Legal(s, s.win) /\ v.shape = <<VH(s), VW(s)>> /\ Len(v.v) = VW(s) * VH(s)
            /\ b.shape = <<2 * VH(s), 2 * VW(s)>> /\ Len(b.v) = 4 * Len(v.v)
InvReset == LET a == StepV(StepV(s, [op |-> "crop", l |-> 0, r |-> 0, t |-> 0, b |-> 0, upd |-> FALSE], ItPlain).st, [op |-> "unmask"], ItPlain).st
            IN Show(a, ItPlain) = [shape |-> <<H, W>>, v |-> Full(1)] /\ Show(a, ItBin) = [shape |-> <<2*H, 2*W>>, v |-> Full(2)]
InvMask == s.on /\ s.mwin = s.win => LET v == Show(s, ItPlain).v IN Cardinality({k \in DOMAIN v : v[k] = Masked}) = Cardinality(s.mpx)
\* moving with the crop keeps the points on the same pixels of the full map
InvPoints == \A i \in DOMAIN s.pts : world[i] = <<s.pts[i][1] + s.win.l, s.pts[i][2] + s.win.t>>
InvDilate == \A k \in 0..2 : LET p == s.mpx \cap ViewPx(s)  d == Dilate(p, k, ViewPx(s)) IN p \subseteq d /\ d \subseteq Dilate(p, k + 1, ViewPx(s))
Stop == (Gen /\ n = MaxSteps) => PrintT("TRACE " \o ToJson(hist))
=============================================================================
