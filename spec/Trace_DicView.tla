---------------------------- MODULE Trace_DicView ----------------------------
EXTENDS DicView, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, l, st, f
Bad(s, e, r) == (IF e.ok # r.ok THEN {IF e.ok THEN e.op \o "-accepted-but-must-be-refused" ELSE e.op \o "-refused-but-must-succeed"} ELSE {})
                \cup (IF e.ok /\ r.ok /\ e.res.shape # r.v.shape THEN {e.op \o "-wrong-shape"} ELSE {})
                \cup (IF e.ok /\ r.ok /\ e.res.v # r.v.v THEN {e.op \o "-wrong-content"} ELSE {})
It(r, e) == IF "item" \in DOMAIN e THEN r.items[e.item] ELSE r.items["um"]
TraceInit == c \in 1..Len(Cases) /\ l = 0 /\ f = 0 /\ st = NewView(Cases[c].w, Cases[c].h, <<>>)
TraceNext ==
    /\ l < Len(Cases[c].ev)
    /\ LET e == Cases[c].ev[l + 1]
           r == StepV(st, e, It(Cases[c], e))
           b == IF r.judge THEN Bad(st, e, r) ELSE {}
       IN /\ c' = c /\ l' = l + 1 /\ st' = r.st
          /\ f' = IF f = 0 /\ b # {} THEN l + 1 ELSE f
          /\ (f = 0 /\ b # {}) => PrintT("FAIL " \o ToJson([case |-> c, l |-> l + 1, bad |-> b]))
TraceSpec == TraceInit /\ [][TraceNext]_<<c, l, st, f>>
=============================================================================
