------------------------------ MODULE Trace_Draw ------------------------------
(* Judges recorded unit cells, traces on grain plots and slip bands (C38).           *)
EXTENDS Draw, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, l
no(name, b) == IF b THEN {} ELSE {name}
Bad(e) ==
    CASE e.op = "cell" -> LET exp == TLCEval(Cell(e.sym, e.oi, UnitF(e.q)))  obs == {e.faces[i] : i \in DOMAIN e.faces} IN
            no("face-count", Len(e.faces) = Cardinality(exp))
            \cup no("cell", SameCell(exp, obs, 10))
            \cup no("view", e.view = <<90, 270>>)
            \cup no("frame", e.lims = <<-1500, 1500, -1500, 1500, -1500, 1500>>)
      [] e.op = "traces" ->
            no("trace-count", Len(e.tr) = Len(e.angles))
            \cup (IF Len(e.tr) # Len(e.angles) THEN {} ELSE UNION {
                 LET t == e.tr[i]  w == Trace(e.angles[i]) IN
                 no("trace-direction", SameLine(t.uv, w, 4))
                 \cup no("trace-upper", ~e.top \/ t.uv[2] >= -4)
                 \cup no("trace-place", PlaceOk(t.at, e.pos, e.box))
                 \cup no("trace-colour", t.col = ColourOf(e.cols, i))
                 \cup no("trace-length", t.scale = 10 /\ t.pivot = IF e.top THEN "tail" ELSE "middle") : i \in DOMAIN e.angles})
      [] e.op = "own" ->      \* the grain's own traces in the colours of its phase
            no("own-count", Len(e.tr) = Len(e.tens))
            \cup (IF Len(e.tr) # Len(e.tens) THEN {} ELSE UNION {
                 no("own-direction", LET a == e.tens[i] \div 10  lo == Trace(a)  hi == Trace(a + 1) IN
                        SameLine(e.tr[i].uv, lo, 180) \/ SameLine(e.tr[i].uv, hi, 180))
                 \cup no("own-place", PlaceOk(e.tr[i].at, e.pos, e.box))
                 \cup no("own-colour", e.tr[i].col = ColourOf(e.cols, i)) : i \in DOMAIN e.tens})
      [] e.op = "bands" ->
            no("bands", FoundOk(e.r, e.bands, e.thres, e.dist))
            \cup no("bands-drawn", ~e.drawn \/ (Len(e.tr) = Len(e.r) /\ \A i \in DOMAIN e.r :
                       SameLine(e.tr[i].uv, Trace(e.r[i] \div 10), 250) /\ e.tr[i].col = e.col /\ PlaceOk(e.tr[i].at, e.pos, e.box)))
TraceInit == c \in 1..Len(Cases) /\ l = 0
TraceNext == l = 0 /\ l' = 1 /\ c' = c
             /\ LET b == Bad(Cases[c]) IN b # {} => PrintT("FAIL " \o ToJson([case |-> c, l |-> 1, bad |-> b]))
TraceSpec == TraceInit /\ [][TraceNext]_<<c, l>>
=============================================================================
