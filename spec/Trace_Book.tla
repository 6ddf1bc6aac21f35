------------------------------ MODULE Trace_Book ------------------------------
EXTENDS Book, Json, IOUtils, TLC
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, l, st, fl
no(name, b) == IF b THEN {} ELSE {name}
RanS(q) == {q[i] : i \in DOMAIN q}
Bad(s, e) ==
    LET r == StepB(s, e)  t == r.st IN
    no(IF e.ok THEN "accepted-but-contradictory" ELSE "refused", e.ok = r.ok)
    \cup no("result-of-" \o e.op, e.ok /\ r.ok => e.res = r.res)
    \cup no("increments", e.s.exps = t.exps)
    \cup no("increment-experiment", [i \in DOMAIN e.s.incs |-> e.s.incs[i].exp] = [i \in DOMAIN t.incs |-> t.incs[i].exp])
    \cup no("increment-metadata", [i \in DOMAIN e.s.incs |-> e.s.incs[i].meta] = [i \in DOMAIN t.incs |-> t.incs[i].meta])
    \cup no("increment-maps", [i \in DOMAIN e.s.incs |-> RanS(e.s.incs[i].maps)] = [i \in DOMAIN t.incs |-> RanS(t.incs[i].maps)])
    \cup no("map-increment", [i \in DOMAIN e.s.maps |-> e.s.maps[i].inc] = [i \in DOMAIN t.maps |-> t.maps[i].inc])
    \cup no("map-experiment", [i \in DOMAIN e.s.maps |-> e.s.maps[i].exp] = [i \in DOMAIN t.maps |-> t.incs[t.maps[i].inc].exp])
    \cup no("shared-frames", Len(e.s.maps) = Len(t.maps) => \A i, j \in DOMAIN t.maps : (e.s.maps[i].frame = e.s.maps[j].frame) = (t.maps[i].frame = t.maps[j].frame))
    \cup no("points", [i \in DOMAIN e.s.maps |-> e.s.maps[i].pts] = [i \in DOMAIN t.maps |-> t.pts[t.maps[i].frame]])
TraceInit == c \in 1..Len(Cases) /\ l = 0 /\ fl = 0 /\ st = NewBook(3)
TraceNext ==
    /\ l < Len(Cases[c].ev) /\ fl = 0
    /\ LET e == Cases[c].ev[l + 1]
           b == Bad(st, e)
       IN /\ c' = c /\ l' = l + 1 /\ st' = StepB(st, e).st
          /\ fl' = (IF b # {} THEN l + 1 ELSE fl)
          /\ (b # {}) => PrintT("FAIL " \o ToJson([case |-> c, l |-> l + 1, bad |-> b]))
Skip == fl > 0 /\ l < Len(Cases[c].ev) /\ l' = l + 1 /\ UNCHANGED <<c, st, fl>>
TraceSpec == TraceInit /\ [][TraceNext \/ Skip]_<<c, l, st, fl>>
=============================================================================
