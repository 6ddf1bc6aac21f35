---------------------------- MODULE Trace_GrainData ----------------------------
(* Judges recorded data movements between a map and its grains (C06).            *)
EXTENDS GrainData, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, l, f
NAN == -99999
Ids(r, e) == IF e.all THEN [j \in 1..Len(r.pp) |-> j - 1] ELSE e.ids
Sel(s, i) == s[i]
EvBad(r, e) ==
    LET g == IF "g" \in DOMAIN e THEN r.pp[e.g + 1] ELSE <<>>
        no(name, b) == IF b THEN {} ELSE {name}
        cen(q) == IF e.box THEN Rounds(IF q = 1 THEN MinX(g) + MaxX(g) ELSE MinY(g) + MaxY(g), 2)
                  ELSE Rounds(SumSeq([i \in DOMAIN g |-> g[i][q]]), Len(g))
        org(q) == IF e.local THEN (IF q = 1 THEN MinX(g) ELSE MinY(g)) ELSE 0
    IN CASE e.op \in {"gather", "derived"} ->        \* imgs: components of the map data
              no(e.op, e.r = [j \in DOMAIN e.imgs |-> Gather(e.imgs[j], r.w, g)])
         [] e.op = "scatter" ->                      \* vals[comp][grain][i]
              no("scatter", e.r = [j \in DOMAIN e.vals |-> Scatter(r.pp, e.vals[j], r.w, r.h, 0)])
         [] e.op = "fill" ->                         \* vals[comp][position in ids]
              LET ids == Ids(r, e)
                  fit == \A j \in DOMAIN e.vals : Len(e.vals[j]) = Len(ids)
              IN IF ~fit THEN no("fill-wrong-count-accepted", ~e.ok)
                 ELSE IF ~e.ok THEN {"fill-refused"}
                 ELSE no("fill", e.r = [j \in DOMAIN e.vals |-> Fill(r.pp, ids, e.vals[j], r.w, r.h, e.bg)])
         [] e.op = "average" ->
              LET ids == Ids(r, e)
              IN IF Len(e.r) # Len(ids) THEN {"average-count"}
                 ELSE no("average", \A j \in DOMAIN ids :
                        LET v == Gather(e.img, r.w, r.pp[ids[j] + 1]) IN IsMean(e.r[j], 10000, SumSeq(v), Len(v)))
         [] e.op = "gmap" ->                         \* vals[comp][i] in point order
              no("grain-map", e.shape = <<BoxH(g), BoxW(g)>>
                  /\ e.r = [j \in DOMAIN e.vals |-> GrainImage(g, e.vals[j], e.bg)])
         [] e.op = "gmapm" ->
              no("grain-map", e.shape = <<BoxH(g), BoxW(g)>>
                  /\ e.r = [j \in DOMAIN e.imgs |-> GrainImage(g, Gather(e.imgs[j], r.w, g), e.bg)])
         [] e.op = "coarse" ->
              LET v == Gather(e.img, r.w, g)
              IN no("coarse", e.shape = <<BoxH(g), BoxW(g)>> /\ Len(e.r) = BoxH(g) * BoxW(g)
                    /\ \A k \in 1..Len(e.r) :
                         LET p == << MinX(g) + ((k-1) % BoxW(g)), MinY(g) + ((k-1) \div BoxW(g)) >>
                             cv == Coarse(g, v, e.k, p)
                         IN IF p \in Ran(g) THEN IsMean(e.r[k], 10000, cv[1], cv[2]) ELSE e.r[k] = e.bg)
         [] e.op = "extent" -> no("extent", e.r = <<MinX(g), MinY(g), MaxX(g), MaxY(g)>>)
         [] e.op = "centre" -> no(IF e.box THEN "box-centre" ELSE "centre-of-mass",
                                  e.r[1] + org(1) \in cen(1) /\ e.r[2] + org(2) \in cen(2))
         [] e.op = "outline" -> no("outline", e.shape = <<BoxH(g), BoxW(g)>>
                  /\ e.r = GrainImage(g, Const(e.fg, Len(g)), e.bg))
         [] e.op = "size" -> no("size", e.r = Len(g))
TraceInit == c \in 1..Len(Cases) /\ l = 0 /\ f = 0
TraceNext == /\ l < Len(Cases[c].ev) /\ l' = l + 1 /\ c' = c
             /\ LET b == EvBad(Cases[c], Cases[c].ev[l + 1])
                IN /\ f' = IF f = 0 /\ b # {} THEN l + 1 ELSE f
                   /\ (f = 0 /\ b # {}) => PrintT("FAIL " \o ToJson([case |-> c, l |-> l + 1, bad |-> b]))
TraceSpec == TraceInit /\ [][TraceNext]_<<c, l, f>>
=============================================================================
