--------------------------- MODULE Trace_Datastore ---------------------------
(* Validates recorded calls on the real stores against Datastore!Step.  Each   *)
(* event is judged; a wrong one is attributed to the property it belongs to    *)
(* and the model carries on from its own state.                                *)
EXTENDS Datastore, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
PID == IOEnv.PID
VARIABLES c, l, st, f
Start(r) == NewState(r.grps, r.crops)
Owner(s, e) ==
    LET links == s.nodes[e.n].ders # <<>>
        own == "k" \in DOMAIN e /\ e.k \in SeqSet(s.nodes[e.n].own)
        vis == "k" \in DOMAIN e /\ Visible(s, e.n, e.k)
    IN CASE e.op \in {"get", "getattr", "gen"} -> IF own THEN "C01" ELSE IF vis THEN "C03" ELSE "C02"
         [] e.op \in {"set", "setattr"} -> IF own THEN "C01" ELSE "C02"
         [] e.op \in {"item", "meta"} -> IF own \/ ~links THEN "C02" ELSE "C03"
         [] e.op \in {"keys", "iter", "star", "len", "has"} -> IF own \/ ~links THEN "C02" ELSE "C03"
         [] e.op = "link" -> "C03"
         [] OTHER -> "C02"
Bad(s, e, r) ==
    IF Owner(s, e) # PID THEN {}
    ELSE (IF e.ok # r.ok THEN {IF e.ok THEN e.op \o "-accepted-but-must-be-refused" ELSE e.op \o "-refused-but-must-succeed"} ELSE {})
         \cup (IF e.ok /\ r.ok /\ e.r # r.v THEN {e.op \o "-wrong-result"} ELSE {})
TraceInit == c \in 1..Len(Cases) /\ l = 0 /\ f = 0 /\ st = Start(Cases[c])
TraceNext ==
    /\ l < Len(Cases[c].ev)
    /\ LET e == Cases[c].ev[l + 1]
           r == Step(st, e)
           b == Bad(st, e, r)
       IN /\ c' = c /\ l' = l + 1 /\ st' = r.st
          /\ f' = IF f = 0 /\ b # {} THEN l + 1 ELSE f
          /\ (f = 0 /\ b # {}) => PrintT("FAIL " \o ToJson([case |-> c, l |-> l + 1, bad |-> b]))
TraceSpec == TraceInit /\ [][TraceNext]_<<c, l, st, f>>
=============================================================================
