----------------------------- MODULE Trace_Frames -----------------------------
EXTENDS Frames, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, l, st, fl
no(name, b) == IF b THEN {} ELSE {name}
Next1(s, e) == CASE e.op = "setpts" -> SetPts(s, e.f, e.pts, e.t)
                 [] e.op = "link" /\ e.ok -> LET n == Link(s, e.f, e.g, e.type) IN [n EXCEPT !.map = @ \/ e.how = "map"]
                 [] OTHER -> s
Homography(ty) == ty \in {"affine", "projective"}
Pt8(r, q) == \A i \in 1..2 : Close(r[i], q[i], 8)
At2(s, f, g, r, p, u) == LET n == Combo(s, f, g, p, u)  d == ComboDen(s, f, g, u) IN Close(r[1], n[1], d) /\ Close(r[2], n[2], d)
\* lines: doubled on input, doubled on output; output lies on half-integers within half a pixel
LineOk(s, f, g, in, out) == \A j \in {1, 3} : \A i \in 0..1 :
    LET n == Combo(s, f, g, <<in[j], in[j + 1]>>, 2)  d == ComboDen(s, f, g, 2)  o == out[j + i]
    IN o % 2 = 1 /\ 2 * Abs(o * d - 2 * n[i + 1]) <= 2 * d + (d \div 100) + 1
\* a pixel of a warped image: img is iw by ih, shown at pixel p of frame g; source position in frame f
PixOk(s, e, p) ==
    LET n == Combo(s, e.g, e.f, p, 1)  d == ComboDen(s, e.g, e.f, 1)  o == e.out[p[2] * e.ow + p[1] + 1]
        in == n[1] >= 0 /\ n[2] >= 0 /\ n[1] <= (e.iw - 1) * d /\ n[2] <= (e.ih - 1) * d
        q == Near(n, d)
    IN IF e.order = 0
       THEN \/ Tie(n[1], d) \/ Tie(n[2], d)
            \/ ~in /\ InMap(e.iw, e.ih, q) /\ ~Homography(Type(s, e.f, e.g))
            \/ Type(s, e.f, e.g) = "piecewise_affine" /\ ~in
            \/ o = 1000 * Sample(e.img, e.iw, e.ih, q)
       ELSE ~in \/ Abs(o * d - 1000 * (e.ramp[1] * n[1] + e.ramp[2] * n[2] + e.ramp[3] * d)) <= 3 * d
Bad(s, e) ==
    CASE e.op = "link" -> no("link-refused", e.ok = e.known)
      [] e.op = "query" ->
           IF ~Asked(s, e.f, e.g) THEN no("transform-not-refused", ~e.ok)
           ELSE IF ~e.ok THEN {"transform-failed"}
           ELSE no("homologous-points", \A i \in DOMAIN s.pts[e.f] : Pt8(e.at[i], s.pts[e.g][i]))
                \cup no("transform", HasMap(s, e.f, e.g) /\ Type(s, e.f, e.g) # "piecewise_affine" =>
                                       \A i \in DOMAIN e.probe : At2(s, e.f, e.g, e.pr[i], e.probe[i], 1))
                \cup no("points-changed", e.kept)
      [] e.op = "warp" ->
           IF ~Asked(s, e.f, e.g) \/ (e.how = "map" /\ ~s.map) THEN no("warp-not-refused", ~e.ok)
           ELSE IF ~e.ok THEN {"warp-failed"}
           ELSE IF Len(e.out) # e.ow * e.oh THEN {"warp-shape"}
           ELSE no("warped-image", \A p \in Pix(e.ow, e.oh) : PixOk(s, e, p)) \cup no("image-changed", e.kept)
      [] e.op = "lines" ->
           IF ~Asked(s, e.f, e.g) THEN no("lines-not-refused", ~e.ok)
           ELSE IF ~e.ok THEN {"lines-failed"}
           ELSE no("line-count", Len(e.out) = Len(e.lines))
                \cup no("lines", Len(e.out) = Len(e.lines) /\ Type(s, e.f, e.g) # "piecewise_affine" => \A i \in DOMAIN e.lines : LineOk(s, e.f, e.g, e.lines[i], e.out[i]))
      [] e.op = "bounds" ->     \* boundaries of the EBSD map (frame 3) seen in the DIC map (frame 2)
           IF ~s.map \/ ~Asked(s, 2, 3) \/ Type(s, 2, 3) = "piecewise_affine" THEN {}
           ELSE IF ~e.ok THEN {"boundaries-failed"}
           ELSE no("boundary-line-count", Len(e.out) = Len(e.lines))
                \cup no("boundary-lines", Len(e.out) = Len(e.lines) => \A i \in DOMAIN e.lines : LineOk(s, 3, 2, e.lines[i], e.out[i]))
                \cup no("boundary-image", Ran(e.img) = Ran(e.pts))
                \cup no("boundary-points", \A i \in DOMAIN e.pts : \E j \in DOMAIN e.epts :
                           LET n == Combo(s, 3, 2, e.epts[j], 1)  d == ComboDen(s, 3, 2, 1)
                           IN \A k \in 1..2 : Abs(e.pts[i][k] * d - n[k]) <= e.tol * d)
      [] OTHER -> {}
TraceInit == c \in 1..Len(Cases) /\ l = 0 /\ fl = 0 /\ st = NewFrames
TraceNext ==
    /\ l < Len(Cases[c].ev)
    /\ LET e == Cases[c].ev[l + 1]
           b == Bad(st, e)
       IN /\ c' = c /\ l' = l + 1 /\ st' = Next1(st, e)
          /\ fl' = (IF fl = 0 /\ b # {} THEN l + 1 ELSE fl)
          /\ (fl = 0 /\ b # {}) => PrintT("FAIL " \o ToJson([case |-> c, l |-> l + 1, bad |-> b]))
TraceSpec == TraceInit /\ [][TraceNext]_<<c, l, st, fl>>
=============================================================================
