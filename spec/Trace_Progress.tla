---------------------------- MODULE Trace_Progress ----------------------------
EXTENDS Progress, Json, IOUtils, TLC
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, l, st, fl
no(name, b) == IF b THEN {} ELSE {name}
\* an exact half of a percent may be rounded either way
Same(e, p, q) == p.k = q.k /\ p.m = q.m /\ (p.n = q.n \/ (e.op = "report" /\ (e.v * 25) % 128 = 0 /\ p.n = q.n - 1))
Bad(s, e) ==
    IF ~CanP(s, e) THEN {"impossible-" \o e.op}
    ELSE LET r == StepP(s, e) IN
         no("event-" \o e.op, r.ok)
         \cup no("printed-after-" \o e.op, Len(e.out) = Len(r.out) /\ \A i \in DOMAIN e.out : Same(e, e.out[i], r.out[i]))
TraceInit == c \in 1..Len(Cases) /\ l = 0 /\ fl = 0 /\ st = NewReporter
TraceNext ==
    /\ l < Len(Cases[c].ev) /\ fl = 0
    /\ LET e == Cases[c].ev[l + 1]
           b == Bad(st, e)
       IN /\ c' = c /\ l' = l + 1 /\ st' = (IF b = {} THEN StepP(st, e).st ELSE st)
          /\ fl' = (IF b # {} THEN l + 1 ELSE fl)
          /\ (b # {}) => PrintT("FAIL " \o ToJson([case |-> c, l |-> l + 1, bad |-> b]))
Skip == fl > 0 /\ l < Len(Cases[c].ev) /\ l' = l + 1 /\ UNCHANGED <<c, st, fl>>
TraceSpec == TraceInit /\ [][TraceNext \/ Skip]_<<c, l, st, fl>>
=============================================================================
