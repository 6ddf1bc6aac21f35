----------------------------- MODULE Trace_MapPlot -----------------------------
EXTENDS MapPlot, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, l, v, fl
no(name, b) == IF b THEN {} ELSE {name}
Abs(x) == IF x < 0 THEN -x ELSE x
SameImg(a, b) == a.k = b.k /\ Len(a.px) = Len(b.px) /\ \A i \in DOMAIN a.px : IF b.k = "hl" /\ a.px[i] # 0 /\ b.px[i] # 0
                    THEN a.px[i] \div 1000 = b.px[i] \div 1000 /\ Abs(a.px[i] - b.px[i]) <= 1 ELSE a.px[i] = b.px[i]
SameColl(a, b) == a.k = b.k /\ a.at = b.at /\ (a.k = "lines" => a.col = b.col)
NumsOk(M, t) == Len(t) = M.n /\ \A g \in 1..M.n : t[g].s = g - 1
    /\ t[g].x \in Rounds(SumSeq([i \in DOMAIN M.pp[g] |-> M.pp[g][i][1]]), Len(M.pp[g]))
    /\ t[g].y \in Rounds(SumSeq([i \in DOMAIN M.pp[g] |-> M.pp[g][i][2]]), Len(M.pp[g]))
PlotBad(M, p, o) ==
    no("layers", Len(o.imgs) = Len(p.imgs) /\ Len(o.colls) = Len(p.colls))
    \cup no("base-map", \A i \in DOMAIN p.imgs : p.imgs[i].k = "map" => i \in DOMAIN o.imgs /\ SameImg(o.imgs[i], p.imgs[i]))
    \cup no("boundaries", \A i \in DOMAIN p.imgs : p.imgs[i].k = "gb" => i \in DOMAIN o.imgs /\ SameImg(o.imgs[i], p.imgs[i]))
    \cup no("highlights", \A i \in DOMAIN p.imgs : p.imgs[i].k = "hl" => i \in DOMAIN o.imgs /\ SameImg(o.imgs[i], p.imgs[i]))
    \cup no("points-or-lines", \A i \in DOMAIN p.colls : i \in DOMAIN o.colls /\ SameColl(o.colls[i], p.colls[i]))
    \cup no("grain-numbers", IF p.nums THEN NumsOk(M, o.nums) ELSE o.nums = <<>>)
    \cup no("arrow", o.arrow = p.arrow)
ProfBad(M, e) ==
    LET z == e.z  n == Len(e.prof) IN
    no("profile-length", CountOk(z, n)) \cup no("profile-one-line", e.nlines = 1)
    \cup (IF n < 2 THEN {} ELSE
      no("profile-distance", /\ e.dist[1] = 0 /\ Len(e.dist) = n
                             /\ LET L == e.dist[n] L2 == Sq(z[3] - z[1]) + Sq(z[4] - z[2]) IN Sq(L - 1) <= L2 + 1 /\ Sq(L + 1) >= L2 - 1
                             /\ \A k \in 1..n : Abs(e.dist[k] * (n - 1) - (k - 1) * e.dist[n]) <= n)
      \cup no("profile-values", \A k \in 1..n : Abs(e.prof[k] - SampleAt(M, z, k - 1, n)) <= 2))
Bad(M, s, e) ==
    LET r == StepV(M, s, e) IN
    no(IF e.ok THEN "accepted-" \o e.op ELSE "refused-" \o e.op, e.ok = r.ok)
    \cup no("selected-grain", e.sel = r.st.sel)
    \cup no("other-plots", e.others)
    \cup (IF e.op # "alpha" /\ (r.ok \/ e.op # "open") THEN IF e.ok # r.ok THEN {} ELSE PlotBad(M, r.st.plots[IF e.op = "open" THEN Len(r.st.plots) ELSE e.p], e.o) ELSE {})
    \cup (IF e.op = "drag" /\ e.ok THEN ProfBad(M, e) ELSE {})
    \cup (IF e.op = "click" /\ e.disp /\ r.st.sel # 0 /\ e.inside /\ GrainAt(M, e.z) # 0
          THEN no("grain-window", e.win.n = 1 /\ e.win.px = GrainImage(M.pp[r.st.sel], Gather(M.val, M.w, M.pp[r.st.sel]), -99999)
                                  /\ e.win.g = r.st.sel) ELSE {})
TraceInit == c \in 1..Len(Cases) /\ l = 0 /\ fl = 0 /\ v = NewView
TraceNext ==
    /\ l < Len(Cases[c].ev) /\ fl = 0
    /\ LET e == Cases[c].ev[l + 1]
           b == Bad(Cases[c].M, v, e)
       IN /\ c' = c /\ l' = l + 1 /\ v' = StepV(Cases[c].M, v, e).st
          /\ fl' = (IF b # {} THEN l + 1 ELSE fl)
          /\ (b # {}) => PrintT("FAIL " \o ToJson([case |-> c, l |-> l + 1, bad |-> b]))
Skip == fl > 0 /\ l < Len(Cases[c].ev) /\ l' = l + 1 /\ UNCHANGED <<c, v, fl>>
TraceSpec == TraceInit /\ [][TraceNext \/ Skip]_<<c, l, v, fl>>
=============================================================================
