----------------------------- MODULE Trace_Linker -----------------------------
EXTENDS Linker, Json, IOUtils, TLC
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, l, st, fl
no(name, b) == IF b THEN {} ELSE {name}
Bad(ms, s, e) ==
    LET r == StepL(ms, s, e)  t == r.st
        may(i) == e.op = "click" /\ e.inside /\ e.m = 1 /\ i > 1 /\ Edgy(ms, s, i, e.z) IN
    no(IF e.ok THEN "accepted-" \o e.op ELSE "refused-" \o e.op, e.ok = r.ok)
    \cup no("origin", e.s.origin = t.origin) \cup no("links", e.s.links = t.links)
    \cup no("selected-grain", \A i \in DOMAIN ms : e.s.sel[i] = t.sel[i] \/ may(i))
    \cup no("reference-orientations", e.s.ref = t.ref)
    \cup no("misorientation", e.op = "misori" =>
            /\ {<<e.mis[k].m, e.mis[k].g>> : k \in DOMAIN e.mis} = {<<i, t.links[k][i] + 1>> : i \in 2..Len(ms), k \in DOMAIN t.links}
            /\ \A k \in DOMAIN e.mis : LET q == e.mis[k] IN \A d \in DOMAIN q.deg : q.deg[d] = Angle(t.ref[q.m][q.g], ms[q.m].own[q.g]))
    \cup no("misorientation-axes", e.op = "misori" => \A k \in DOMAIN e.mis : LET q == e.mis[k] IN
            q.turn = (IF e.axis THEN q.deg ELSE <<>>) /\ q.tilt = 0)
TraceInit == c \in 1..Len(Cases) /\ l = 0 /\ fl = 0 /\ st = NewLinker(Cases[c].ms)
TraceNext ==
    /\ l < Len(Cases[c].ev) /\ fl = 0
    /\ LET e == Cases[c].ev[l + 1]
           b == Bad(Cases[c].ms, st, e)
       IN /\ c' = c /\ l' = l + 1 /\ st' = [StepL(Cases[c].ms, st, e).st EXCEPT !.sel = e.s.sel]
          /\ fl' = (IF b # {} THEN l + 1 ELSE fl)
          /\ (b # {}) => PrintT("FAIL " \o ToJson([case |-> c, l |-> l + 1, bad |-> b]))
Skip == fl > 0 /\ l < Len(Cases[c].ev) /\ l' = l + 1 /\ UNCHANGED <<c, st, fl>>
TraceSpec == TraceInit /\ [][TraceNext \/ Skip]_<<c, l, st, fl>>
=============================================================================
