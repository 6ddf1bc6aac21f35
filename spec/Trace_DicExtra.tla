---------------------------- MODULE Trace_DicExtra ----------------------------
(* Judges recorded histories: statistics and histograms (C36), correlation values    *)
(* and patterns (C37).                                                               *)
EXTENDS DicExtra, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
PID == IOEnv.PID
VARIABLES c, l, st, f
vars == <<c, l, st, f>>
no(name, b) == IF b THEN {} ELSE {name}
Near(a, b, e) == a - b <= e /\ b - a <= e
RowsOk(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : a[i].name = b[i].name /\ a[i].idx = b[i].idx /\
                Len(a[i].vals) = Len(b[i].vals) /\ \A q \in DOMAIN a[i].vals : Near(a[i].vals[q], b[i].vals[q], 1)
\* midpoints in thousandths
Mid(op, ed, i) == IF op.logx THEN -1 ELSE 250 * (ed[i] + ed[i + 1])
Axes == [linear |-> <<"linear", "linear">>, Linear |-> <<"linear", "linear">>, logy |-> <<"linear", "log">>, LogY |-> <<"linear", "log">>,
         logx |-> <<"log", "linear">>, loglog |-> <<"log", "log">>]
HistBad(m, s0, e) ==
    LET s == HistData(m, s0, e)  ed == HistEdges(m, s0, e)  hs == Heights(Kind(e), s, ed, e.density)
        can == e.axes \in DOMAIN Axes /\ e.type \in {"scatter", "bar", "step"}
    IN no("histogram-refusal", e.ok = can)
       \cup (IF ~(e.ok /\ can) THEN {} ELSE
             no("histogram-heights", Len(e.y) = Len(hs) /\ \A i \in DOMAIN hs : Near(e.y[i], hs[i], 2))
             \cup no("histogram-places", Len(e.x) = Len(hs) /\ \A i \in DOMAIN hs : Mid(e, ed, i) = -1 \/ Near(e.x[i], Mid(e, ed, i), 1))
             \cup no("histogram-axes", e.lab = <<IF e.density THEN "Normalised frequency" ELSE "Frequency">> \o Axes[e.axes]))
Bad(m, s0, e) ==
    LET r == Step(m, s0, e) IN
    IF PID = "C36"
    THEN CASE e.op = "stats" -> no("stats-refusal", e.ok = r[2])
                 \cup (IF ~(e.ok /\ r[2]) THEN {} ELSE
                       no("stats-values", RowsOk(e.rows, Rows(m, s0, e.names, e.ps)))
                       \cup no("stats-header", e.head = <<CW(m, s0), CH(m, s0), m.b, m.b, CW(m, s0) * CH(m, s0)>>)
                       \cup no("stats-percentiles", e.hps = e.ps))
           [] e.op = "hist" -> HistBad(m, s0, e)
           [] OTHER -> {}
    ELSE CASE e.op \in {"corr", "setpat"} -> no(e.op \o "-refusal", e.ok = r[2])
           [] e.op \in {"getcorr", "readpat"} -> no(e.op \o "-refusal", e.ok = r[2]) \cup no(e.op, ~(e.ok /\ r[2]) \/ e.im = r[3])
           [] OTHER -> {}
Case == Cases[c]
TraceInit == c \in 1..Len(Cases) /\ l = 0 /\ st = Init0 /\ f = FALSE
TraceNext == /\ l < Len(Case.ev) /\ l' = l + 1 /\ c' = c
             /\ LET e == Case.ev[l + 1]  b == IF f THEN {} ELSE Bad(Case.m, st, e) IN
                /\ st' = Step(Case.m, st, e)[1]
                /\ f' = (f \/ b # {})
                /\ b # {} => PrintT("FAIL " \o ToJson([case |-> c, l |-> l + 1, bad |-> b]))
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
