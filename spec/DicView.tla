------------------------------ MODULE DicView ------------------------------
(* What a DIC map shows of its data under cropping and masking.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC
None == -1
Masked == -999999
Win(l, r, t, b) == [l |-> l, r |-> r, t |-> t, b |-> b]
NewView(w, h, pts) == [w |-> w, h |-> h, win |-> Win(0, 0, 0, 0), on |-> FALSE, mwin |-> Win(0, 0, 0, 0), mpx |-> {}, pts |-> pts]
VW(s) == s.w - s.win.l - s.win.r
VH(s) == s.h - s.win.t - s.win.b
ViewPx(s) == (0..VW(s)-1) \X (0..VH(s)-1)
Legal(s, w) == w.l >= 0 /\ w.r >= 0 /\ w.t >= 0 /\ w.b >= 0 /\ w.l + w.r < s.w /\ w.t + w.b < s.h
Near4(p) == {<<p[1]+1, p[2]>>, <<p[1]-1, p[2]>>, <<p[1], p[2]+1>>, <<p[1], p[2]-1>>}
RECURSIVE Dilate(_, _, _)
Dilate(px, k, all) == IF k = 0 THEN px ELSE Dilate((px \cup UNION {Near4(p) : p \in px}) \cap all, k - 1, all)
\* the window an item of the given binning is restricted to, as rows of full-image positions
Restrict(s, full, bin) ==
    [k \in 1..(VW(s) * VH(s) * bin * bin) |->
        LET j == (k - 1) % (VW(s) * bin)  i == (k - 1) \div (VW(s) * bin)
        IN full[(s.win.t * bin + i) * s.w * bin + s.win.l * bin + j + 1]]
\* item properties: it.bin, it.cropped, it.exempt, it.full (stored values, row by row), it.fw, it.fh (stored size)
Show(s, it) ==
    LET v == IF it.cropped THEN it.full ELSE Restrict(s, it.full, it.bin)
        ww == IF it.cropped THEN it.fw ELSE VW(s) * it.bin
        hh == IF it.cropped THEN it.fh ELSE VH(s) * it.bin
    IN [shape |-> <<hh, ww>>,
        v |-> IF it.exempt \/ ~s.on THEN v
              ELSE [k \in DOMAIN v |-> IF <<(k - 1) % ww, (k - 1) \div ww>> \in s.mpx THEN Masked ELSE v[k]]]
\* a mask set for one window says nothing about another one
Judged(s, it) == it.exempt \/ ~s.on \/ s.mwin = s.win
NoRes == [shape |-> <<>>, v |-> <<>>]
Keep(s, ok) == [st |-> s, ok |-> ok, judge |-> TRUE, v |-> NoRes]
Done(s) == Keep(s, TRUE)
Pick(a, old) == IF a = None THEN old ELSE a
StepV(s, op, it) ==
    CASE op.op = "crop" ->
            LET w == Win(Pick(op.l, s.win.l), Pick(op.r, s.win.r), Pick(op.t, s.win.t), Pick(op.b, s.win.b))
                d == <<s.win.l - w.l, s.win.t - w.t>>
            IN Done([s EXCEPT !.win = w, !.pts = IF op.upd THEN [i \in DOMAIN s.pts |-> <<s.pts[i][1] + d[1], s.pts[i][2] + d[2]>>] ELSE s.pts])
      [] op.op = "unmask" -> Done([s EXCEPT !.on = FALSE, !.mpx = {}, !.mwin = s.win])
      [] op.op = "mask" -> Done([s EXCEPT !.on = TRUE, !.mwin = s.win,
                                          !.mpx = Dilate({p \in ViewPx(s) : \E i \in DOMAIN op.px : op.px[i] = p}, op.dil, ViewPx(s))])
      [] op.op = "badmask" -> Keep(s, FALSE)
      [] op.op = "read" -> [st |-> s, ok |-> TRUE, judge |-> Judged(s, it), v |-> Show(s, it)]
      [] op.op = "cropof" -> [st |-> s, ok |-> TRUE, judge |-> TRUE, v |-> Show(s, [it EXCEPT !.cropped = FALSE, !.exempt = TRUE])]
      [] op.op = "getmask" ->     \* the mask itself, as zeros and ones
            [st |-> s, ok |-> TRUE, judge |-> TRUE,
             v |-> IF ~s.on THEN NoRes ELSE [shape |-> <<s.h - s.mwin.t - s.mwin.b, s.w - s.mwin.l - s.mwin.r>>,
                    v |-> LET ww == s.w - s.mwin.l - s.mwin.r  hh == s.h - s.mwin.t - s.mwin.b
                          IN [k \in 1..(ww * hh) |-> IF <<(k - 1) % ww, (k - 1) \div ww>> \in s.mpx THEN 1 ELSE 0]]]
      [] op.op = "shape" -> [st |-> s, ok |-> TRUE, judge |-> TRUE, v |-> [shape |-> <<VH(s), VW(s)>>, v |-> <<VW(s), VH(s)>>]]
      [] op.op = "setpts" -> Done([s EXCEPT !.pts = op.pts])
      [] op.op = "pts" -> [st |-> s, ok |-> TRUE, judge |-> TRUE, v |-> [shape |-> <<>>, v |-> s.pts]]
=============================================================================
