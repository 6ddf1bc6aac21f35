------------------------------ MODULE Trace_Plots ------------------------------
EXTENDS Plots, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, l, f
no(name, b) == IF b THEN {} ELSE {name}
Ids(r, e) == IF e.all THEN [j \in 1..Len(r.pp) |-> j - 1] ELSE e.ids
EvBad(r, e) ==
    LET g == IF "g" \in DOMAIN e THEN r.pp[e.g + 1] ELSE <<>> IN
    CASE e.op \in {"map", "grain"} ->
           LET d == r.data[e.d]
               fit == e.known /\ Fits(d, e.c)
               want == Shown(d, e.c)
           IN IF ~e.ok \/ ~fit THEN no(IF e.ok THEN "accepted" ELSE "refused", e.ok = fit)
              ELSE no("component", IF e.op = "map" THEN SameAll(Bare(d, e.c), e.img, want)
                                   ELSE SameAll(Bare(d, e.c), e.img, GrainImage(g, Gather(want, r.w, g), NaN)))
                   \cup no("image-shape", e.shape = IF e.op = "map" THEN <<r.h, r.w>> ELSE <<BoxH(g), BoxW(g)>>)
                   \cup no("label", e.label = IF e.own # "" THEN e.own ELSE BarLabel(d, e.c))
                   \cup no("limits", e.lim = <<>> \/ e.got = e.lim)
                   \cup no("scale-bar", e.bar * d.bin - r.scale \in (-d.bin)..d.bin)
      [] e.op = "fill" ->
           LET ids == Ids(r, e)  fit == e.given /\ \A j \in DOMAIN e.vals : Len(e.vals[j]) = Len(ids) IN
           IF ~e.ok \/ ~fit THEN no(IF e.ok THEN "accepted" ELSE "refused", e.ok = fit)
           ELSE no("grain-values", e.img = [j \in DOMAIN e.vals |-> Fill(r.pp, ids, e.vals[j], r.w, r.h, e.bg)])
      [] e.op = "avg" ->
           LET ids == Ids(r, e)
               own(k) == {j \in DOMAIN ids : << (k-1) % r.w, (k-1) \div r.w >> \in Ran(r.pp[ids[j] + 1])}
           IN no("refused", e.ok) \cup no("grain-averages", e.ok => \A k \in DOMAIN e.img :
                  IF own(k) = {} THEN e.img[k] = e.bg * 10000
                  \* masked pixels do not count
                  ELSE LET v == SelectSeq(Gather(e.src, r.w, r.pp[ids[CHOOSE j \in own(k) : TRUE] + 1]), LAMBDA x : x # NaN) IN
                       v = <<>> \/ IsMean(e.img[k], 10000, SumSeq(v), Len(v)))
      [] e.op = "schmid" ->
           LET fit == \A k \in DOMAIN e.sf : SelOk(e.sf[k], e.pl, e.di) IN
           IF ~e.ok \/ ~fit THEN no(IF e.ok THEN "accepted" ELSE "refused", e.ok = fit)
           ELSE no("schmid-map", e.img = Fill(r.pp, [j \in 1..Len(r.pp) |-> j - 1], [j \in DOMAIN e.sf |-> Best(e.sf[j], e.pl, e.di)], r.w, r.h, 500000))
      [] e.op = "phase" -> no("refused", e.ok) \cup no("phase-map", e.ok => e.img = r.ph)
                           \cup no("phase-legend", e.ok => e.names = <<"Non-indexed">> \o r.names)
                           \cup no("phase-colours", e.ok => /\ \A k \in DOMAIN e.px : e.px[k] = e.leg[r.ph[k] + 1]
                                                            /\ Cardinality(Ran(e.leg)) = Len(e.leg))
      [] e.op = "labels" -> no("refused", e.ok) \cup no("grain-map", e.ok => e.img = r.lab)
      [] e.op \in {"gb", "pb"} -> no("refused", e.ok) \cup no("boundary-map", e.ok =>
                e.img = IF e.dil THEN Dilate(r.w, r.h, IF e.op = "gb" THEN r.gb ELSE r.pb) ELSE IF e.op = "gb" THEN r.gb ELSE r.pb)
      [] e.op = "line" -> no("refused", e.ok) \cup no("boundary-lines", e.ok => e.segs = r.lines)
      [] e.op = "outline" -> no("refused", e.ok) \cup no("outline", e.ok => e.img = GrainImage(g, Const(0, Len(g)), NaN))
      [] e.op = "nogroup" -> no("accepted", ~e.ok)
      [] e.op = "same" -> no("refused", e.ok) \cup no("same-picture", e.ok => e.a = e.b)
TraceInit == c \in 1..Len(Cases) /\ l = 0 /\ f = 0
TraceNext == /\ l < Len(Cases[c].ev) /\ l' = l + 1 /\ c' = c
             /\ LET b == EvBad(Cases[c], Cases[c].ev[l + 1]) 
                IN /\ f' = (IF f = 0 /\ b # {} THEN l + 1 ELSE f)
                   /\ (f = 0 /\ b # {}) => PrintT("FAIL " \o ToJson([case |-> c, l |-> l + 1, bad |-> b]))
TraceSpec == TraceInit /\ [][TraceNext]_<<c, l, f>>
=============================================================================
