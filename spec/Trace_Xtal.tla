------------------------------ MODULE Trace_Xtal ------------------------------
(* Judges recorded index (C16), slip system (C17) and Schmid/trace (C18) results.   *)
EXTENDS Xtal, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, l
no(name, b) == IF b THEN {} ELSE {name}
Abs3(a, b, e) == NearSeq(a, b, e)
NoDups(s) == Cardinality(Ran(s)) = Len(s)
Canons(s) == {Canon(s[i]) : i \in DOMAIN s}
\* matrices in ten-thousandths
MatT(m, n) == [i \in 1..3 |-> [j \in 1..3 |-> DivR(m[1][i]*n[1][j] + m[2][i]*n[2][j] + m[3][i]*n[3][j], 10000)]]
Id == <<<<10000, 0, 0>>, <<0, 10000, 0>>, <<0, 0, 10000>>>>
NearM(a, b, e) == \A i, j \in 1..3 : Near(a[i][j], b[i][j], e)
Metric(L) == LET m(x, y, t) == DivR(DivR(x * y, 100) * Cos(2 * t), 10000)
             IN <<<<m(L.a, L.a, 0), m(L.a, L.b, L.ga), m(L.a, L.c, L.be)>>, <<m(L.a, L.b, L.ga), m(L.b, L.b, 0), m(L.b, L.c, L.al)>>,
                  <<m(L.a, L.c, L.be), m(L.b, L.c, L.al), m(L.c, L.c, 0)>>>>
Bad(e) ==
    CASE e.op = "p_m_mb" -> no("plane-to-four", e.r = PlaneToMB(e.v))
      [] e.op = "p_mb_m" -> no("plane-to-three", e.r = PlaneToM(e.v))
      [] e.op = "d_m_mb" -> no("direction-to-four", e.r3 = DirToMB3(e.v))            \* three times the result
                            \cup no("direction-not-integer", (\A i \in 1..4 : DirToMB3(e.v)[i] % 3 = 0) => e.int)
      [] e.op = "d_mb_m" -> no("direction-to-three", e.r = DirToM(e.v))
      [] e.op = "pos" -> no("positive-form", e.r = Pos(e.v))
      [] e.op = "reduce" -> no("reduced-form", e.r = Reduce(e.v))
      [] e.op = "str" -> no("string-form", e.r = e.left \o StrAll(e.v, 1, e.tex) \o e.right)
      [] e.op = "cast" -> no("integer-cast", IF e.far THEN ~e.ok ELSE e.ok /\ e.r = e.v)
      [] e.op = "refuse" -> no("bad-input-accepted", ~e.ok)
      [] e.op = "equiv" ->      \* image set up to sign; hexagonal results are reduced four index
            LET v == IF e.sym = "cubic" THEN e.v ELSE IF e.it = "mb" THEN Reduce(e.v)
                     ELSE Reduce(IF e.plane THEN PlaneToMB(e.v) ELSE DirToMB3(e.v))
            IN no("equivalents", NonZero(e.v) /\ {Pos(e.r[i]) : i \in DOMAIN e.r} = {Pos(x) : x \in Images(e.sym, v)})
               \cup no("equivalents-count", Len(e.r) = (IF e.sym = "cubic" THEN 24 ELSE 12))
               \cup no("equivalents-hemisphere", \A i \in DOMAIN e.r : e.r[i][Len(e.r[i])] >= 0)
      [] e.op = "lattice" -> no("lattice-dual", NearM(MatT(e.L, e.Q), Id, 12))
            \cup no("lattice-metric", NearM(MatT(e.L, e.L), Metric(e), 15))
            \cup no("lattice-axes", IF e.conv = "hkl" THEN e.L[1][2] = 0 /\ e.L[3][2] = 0 /\ e.L[2][2] > 0 ELSE e.L[2][1] = 0 /\ e.L[3][1] = 0 /\ e.L[1][1] > 0)
            \cup no("lattice-c-up", e.L[3][3] > 0)
      [] e.op = "orth" -> LET m == IF e.it = "m" THEN e.v ELSE IF e.plane THEN PlaneToM(e.v) ELSE DirToM(e.v)
            IN no("orthogonal-projection", Abs3(e.r, IF e.plane THEN PlaneCart(e.conv, e.ca, m) ELSE DirCart(e.conv, e.ca, m), 12))
      \* ---- slip systems
      [] e.op = "file" ->      \* a file supplied with the package: list, and grouped by plane and family
            LET ss == e.ss IN
            no("direction-not-in-plane", \A i \in DOMAIN ss : Lies(ss[i][1], ss[i][2]) = 0)
            \cup no("redundant-index", e.sym = "hexagonal" => \A i \in DOMAIN ss : \A k \in 1..2 : ss[i][k][3] = -(ss[i][k][1] + ss[i][k][2]))
            \cup no("system-twice", Cardinality(Canons(ss)) = Len(ss))
            \cup no("family-incomplete", \A i \in DOMAIN ss : Family(e.sym, ss[i]) \subseteq Canons(ss))
            \cup no("rows-differ", e.ss = e.rows)
            \cup no("group-by-plane", e.plane = ByPlane(ss)) \cup no("group-by-family", e.family = ByFamily(e.sym, ss))
            \cup no("colours", e.cols = e.line2)
      [] e.op = "load" ->
            IF e.wrong THEN no("bad-file-accepted", ~e.ok)
            ELSE IF ~e.ok THEN {"good-file-refused"}
            ELSE no("rows-differ", e.ss = e.rows) \cup no("group-by-plane", e.plane = ByPlane(e.rows))
                 \cup no("group-by-family", e.family = ByFamily(e.sym, e.rows)) \cup no("colours", e.cols = e.colin)
      [] e.op = "family" -> no("family", NoDups([i \in DOMAIN e.r |-> Canon(e.r[i])]) /\ Canons(e.r) = Family(e.sym, e.s))
      [] e.op = "equal" -> no("equality", e.r = Same(e.a, e.b) /\ (Same(e.a, e.b) => e.hash))
            \cup no("labels", LET a == "(" \o StrAll(e.a[1], 1, FALSE) \o ")"  b == "[" \o StrAll(e.a[2], 1, FALSE) \o "]" IN e.lab = <<a \o b, a, b>>)
      [] e.op = "vectors" -> no("plane-vector", Abs3(e.pl, PlaneUnit(e.sym, e.conv, e.ca, e.s[1]), 12))
                             \cup no("direction-vector", Abs3(e.dr, DirUnit(e.sym, e.conv, e.ca, e.s[2]), 12))
      [] e.op = "phase" -> no("phase-known", e.ok = (e.laue \in {9, 11}))
            \cup no("phase", e.ok =>
                   /\ e.struct = (IF e.laue = 9 THEN "hexagonal" ELSE "cubic")
                   /\ e.file = (IF e.laue = 9 THEN "hexagonal_withca" ELSE IF e.sg = 225 THEN "cubic_fcc" ELSE IF e.sg = 229 THEN "cubic_bcc" ELSE "none")
                   /\ e.r = ByPlane(e.rows)
                   /\ IF e.laue = 9 THEN Near(e.car, (e.c * 1000) \div e.a, 2) ELSE e.car = -1)
      \* ---- Schmid factors and traces
      [] e.op = "schmid" ->
            LET per == [g \in DOMAIN e.ss |-> Len(e.ss[g])]
                shape(x) == Len(x) = Len(e.ss) /\ \A g \in DOMAIN x : Len(x[g]) = per[g]
            IN no("schmid-shape", shape(e.sf)) \cup no("rdr-shape", e.rdron => shape(e.rdr))
               \cup no("schmid", \A g \in DOMAIN e.ss : \A k \in 1..per[g] :
                        Near(e.sf[g][k], Schmid(e.sym, e.conv, e.ca, e.q, e.load, e.ss[g][k]), 12) /\ (Lies(e.ss[g][k][1], e.ss[g][k][2]) = 0 => e.sf[g][k] \in 0..5001))
               \cup no("trace-property", Len(e.trp) = Len(e.tr) /\ \A g \in DOMAIN e.trp : e.trp[g] = e.tr[g][3])
               \cup no("trace-count", Len(e.tr) = Len(e.ss) /\ Len(e.inc) = Len(e.ss))
               \cup no("trace-angle", \A g \in DOMAIN e.ss : TraceOk(e.sym, e.conv, e.ca, e.q, e.ss[g][1][1], e.tr[g][1], e.tr[g][2]))
               \cup no("trace-range", \A g \in DOMAIN e.ss : e.tr[g][3] \in 0..180000 \/ Flat(e.sym, e.conv, e.ca, e.q, e.ss[g][1][1]))
               \cup no("inclination", \A g \in DOMAIN e.ss : Near(e.inc[g][1], Abs(ToSample(e.q, PlaneUnit(e.sym, e.conv, e.ca, e.ss[g][1][1]))[3]), 14)
                                          /\ e.inc[g][2] \in 0..90000)
               \cup no("rdr", e.rdron => \A g \in DOMAIN e.ss : \A k \in 1..per[g] :
                        LET d == ToSample(e.q, DirUnit(e.sym, e.conv, e.ca, e.ss[g][k][2]))
                        IN Abs(d[2]) < 1000 \/ Near(DivR(e.rdr[g][k] * (d[2] \div 10), 1000), -(d[1] \div 10), 15))
TraceInit == c \in 1..Len(Cases) /\ l = 0
TraceNext == l = 0 /\ l' = 1 /\ c' = c
             /\ LET b == Bad(Cases[c]) IN b # {} => PrintT("FAIL " \o ToJson([case |-> c, l |-> 1, bad |-> b]))
TraceSpec == TraceInit /\ [][TraceNext]_<<c, l>>
=============================================================================
