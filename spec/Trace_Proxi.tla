------------------------------ MODULE Trace_Proxi ------------------------------
(* Judges proxigrams (C08); q is 400 times the squared value, rounded.            *)
EXTENDS Proxi, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, l
Ok(q, d) == q - 100 * d \in -2..2
Bad(r) == LET pts == Ran(r.pts) IN
    UNION {LET v == r.runs[j] IN
             IF v.shape # <<r.h, r.w>> THEN {"shape"}
             ELSE IF \A k \in 1..(r.w * r.h) : Ok(v.q[k], Near4(pts, << (k-1) % r.w, (k-1) \div r.w >>)) THEN {}
             ELSE {"distance-" \o v.how} : j \in DOMAIN r.runs}
TraceInit == c \in 1..Len(Cases) /\ l = 0
TraceNext == l = 0 /\ l' = 1 /\ c' = c
             /\ LET b == Bad(Cases[c]) IN b # {} => PrintT("FAIL " \o ToJson([case |-> c, l |-> 1, bad |-> b]))
TraceSpec == TraceInit /\ [][TraceNext]_<<c, l>>
=============================================================================
