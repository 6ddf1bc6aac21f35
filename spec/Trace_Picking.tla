---------------------------- MODULE Trace_Picking ----------------------------
EXTENDS Picking, Json, IOUtils, TLC
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, l, st, fl
no(name, b) == IF b THEN {} ELSE {name}
Seen(s) == [i \in DOMAIN s.plots |-> [sel |-> s.plots[i].sel, shown |-> s.plots[i].shown]]
Bad(s, e) ==
    IF ~SavedOk(s, e) THEN {"saved-point"}
    ELSE LET r == StepP(s, e) IN
         no(IF e.ok THEN "accepted" ELSE "refused", e.ok = r.ok)
         \cup no("points", e.pts2 = r.st.pts)
         \cup no("plots", Len(e.seen) = Len(r.st.plots))
         \cup (IF Len(e.seen) # Len(r.st.plots) THEN {}
               ELSE no("selection", \A i \in DOMAIN e.seen : e.seen[i].sel = r.st.plots[i].sel)
                    \cup no("shown", \A i \in DOMAIN e.seen : e.seen[i].shown = r.st.plots[i].shown))
TraceInit == c \in 1..Len(Cases) /\ l = 0 /\ fl = 0 /\ st = NewPick(2)
TraceNext ==
    /\ l < Len(Cases[c].ev) /\ fl = 0
    /\ LET e == Cases[c].ev[l + 1]
           b == Bad(st, e)
       IN /\ c' = c /\ l' = l + 1 /\ st' = (IF b = {} THEN StepP(st, e).st ELSE st)
          /\ fl' = (IF b # {} THEN l + 1 ELSE fl)
          /\ (b # {}) => PrintT("FAIL " \o ToJson([case |-> c, l |-> l + 1, bad |-> b]))
Skip == fl > 0 /\ l < Len(Cases[c].ev) /\ l' = l + 1 /\ UNCHANGED <<c, st, fl>>
TraceSpec == TraceInit /\ [][TraceNext \/ Skip]_<<c, l, st, fl>>
=============================================================================
