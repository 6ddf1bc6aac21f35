--------------------------- MODULE Trace_EbsdStore ---------------------------
(* Judges sessions of saving and loading maps: every file written is read both   *)
(* as text and by loading it again, and no file changes once written.            *)
EXTENDS EbsdFile, Quat, Json, IOUtils, TLC
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, l, st, fl
no(name, b) == IF b THEN {} ELSE {name}
Obs(o, m, PS) == LET n == m.w * m.h IN                 \* o observed through the API, m expected content
    no("shape", o.shape = <<m.h, m.w>>) \cup no("step-size", o.step = m.step)
    \cup no("phases", o.phases = Phases(PS[m.phases]))
    \cup no("phase-of-pixel", o.ph = m.ph) \cup no("band-contrast", o.bc = m.bc)
    \cup no("band-slope", m.hasbs => o.bs = m.bs)
    \cup no("orientation", Len(o.q) = n /\ \A i \in 1..n : NearUpTo(o.q[i], EulerF(m.eul[i]), 6))
\* the text that was written; angles in thousandths of a degree
Text(t, m, PS) == LET n == m.w * m.h
                      col(x) == Column(t, x) IN
    no("written-size", t.w = m.w /\ t.h = m.h /\ Len(t.rows) = n) \cup no("written-step", t.step = m.step /\ t.ystep = m.step)
    \cup no("written-phases", Phases(t.phases) = Phases(PS[m.phases]))
    \cup no("written-columns", CtfNeed \cup {"X", "Y"} \subseteq Ran(t.cols))
    \cup (IF ~(CtfNeed \cup {"X", "Y"} \subseteq Ran(t.cols)) \/ Len(t.rows) # n THEN {} ELSE
          no("written-phase", col("Phase") = m.ph) \cup no("written-contrast", col("BC") = m.bc)
          \cup no("written-position", \A k \in 1..n : Near(col("X")[k] * 10, ((k - 1) % m.w) * m.step, 5) /\ Near(col("Y")[k] * 10, ((k - 1) \div m.w) * m.step, 5))
          \cup no("written-error", "Error" \in Ran(t.cols) => \A k \in 1..n : (col("Error")[k] # 0) = (m.ph[k] = 0))
          \cup no("written-angles", \A k \in 1..n : LET e == <<col("Euler1")[k], col("Euler2")[k], col("Euler3")[k]>>
                                                       r == [i \in 1..3 |-> (e[i] + 500) \div 1000] IN
                        /\ \A i \in 1..3 : Near(e[i], 1000 * r[i], 2)
                        /\ NearUpTo(EulerF(r), EulerF(m.eul[k]), 6)))
Bad(s, e, PS) ==
    LET r == StepF(s, e)  t == r.st IN
    no(IF e.ok THEN "accepted-" \o e.op ELSE "refused-" \o e.op, e.ok = r.ok)
    \cup no("files", e.names = [i \in DOMAIN t.disk |-> t.disk[i].name])
    \cup no("file-changed", \A i \in DOMAIN e.same : e.same[i])
    \cup (IF e.op = "save" /\ e.ok /\ r.ok THEN Text(e.text, t.disk[Len(t.disk)].map, PS) ELSE {})
    \cup (IF e.op \in {"load", "dict"} /\ e.ok /\ r.ok THEN Obs(e.obs, t.maps[Len(t.maps)], PS) ELSE {})
    \cup (IF e.op \in {"turn", "edit", "read", "save"} /\ e.ok THEN Obs(e.obs, t.maps[e.m], PS) ELSE {})
TraceInit == c \in 1..Len(Cases) /\ l = 0 /\ fl = 0 /\ st = NewSession
TraceNext ==
    /\ l < Len(Cases[c].ev) /\ fl = 0
    /\ LET e == Cases[c].ev[l + 1]
           b == Bad(st, e, Cases[c].ps)
       IN /\ c' = c /\ l' = l + 1 /\ st' = StepF(st, e).st
          /\ fl' = (IF b # {} THEN l + 1 ELSE fl)
          /\ (b # {}) => PrintT("FAIL " \o ToJson([case |-> c, l |-> l + 1, bad |-> b]))
Skip == fl > 0 /\ l < Len(Cases[c].ev) /\ l' = l + 1 /\ UNCHANGED <<c, st, fl>>
TraceSpec == TraceInit /\ [][TraceNext \/ Skip]_<<c, l, st, fl>>
=============================================================================
