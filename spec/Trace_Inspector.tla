---------------------------- MODULE Trace_Inspector ----------------------------
EXTENDS Inspector, Json, IOUtils, TLC, Trig
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, l, st, fl
no(name, b) == IF b THEN {} ELSE {name}
\* sine of hundredths of a degree (ten-thousandths), between half degrees
SinC(x) == LET k == x \div 50  r == x % 50 IN Sin(k) + ((Sin(k + 1) - Sin(k)) * r) \div 50
CosC(x) == SinC(x + 9000)
\* the direction of the line makes angle a with the vertical; the error of a hundredth of a degree and of the table
Along(p, a) == LET dx == p[3] - p[1]  dy == p[4] - p[2]  len == Abs(dx) + Abs(dy) IN Abs(dx * CosC(a) - dy * SinC(a)) <= 4 * len + 15000
Obs(s, o, corr, theo) ==          \* o.lines[g]: <<points, angle, group>>; o.groups[g]: [id, ang, planes, dev, rdr]
    UNION { LET ls == s.lines[g]  ol == o.lines[g]  og == o.groups[g]  as == Angles(ls)  gs == GroupsOf(as) IN
        no("lines", [i \in DOMAIN ol |-> <<ol[i].p, ol[i].ang>>] = ls)
        \cup (IF Len(ol) # Len(ls) \/ Ambiguous(as) THEN {} ELSE
              no("number-of-groups", Len(og) = Len(gs))
              \cup (IF Len(og) # Len(gs) THEN {} ELSE
                    no("group-of-line", \A i \in DOMAIN ol : ol[i].grp = GroupNo(gs, i))
                    \cup no("group-number", \A k \in DOMAIN og : og[k].id = k - 1)
                    \cup no("group-angle", \A k \in DOMAIN og : Abs(og[k].ang - gs[k][1]) <= 1)
                    \cup no("displacement-ratio", [k \in DOMAIN og |-> og[k].rdr] = s.rdr[g])
                    \cup no("active-planes", \A k \in DOMAIN og : \A t \in DOMAIN theo[g] :
                           LET d == Abs(theo[g][t] - og[k].ang)  has == \E q \in DOMAIN og[k].planes : og[k].planes[q] = t - 1 IN
                           (d < 497 => has) /\ (d > 503 /\ 18000 - d > 503 => ~has))
                    \cup no("deviation", \A k \in DOMAIN og : /\ Len(og[k].dev) = Len(og[k].planes)
                           /\ \A q \in DOMAIN og[k].planes : Abs((og[k].ang - theo[g][og[k].planes[q] + 1]) - og[k].dev[q]) % 18000 \in (0..2) \cup (17998..17999)))) : g \in DOMAIN s.lines }
\* slope from the displacements: sums are small integers
PixOf(p) == <<p[1] \div 100, p[2] \div 100, p[3] \div 100, p[4] \div 100>>
Straight(p) == LET q == PixOf(p)  dx == Abs(q[3] - q[1])  dy == Abs(q[4] - q[2]) IN dx = 0 \/ dy = 0 \/ dx = dy
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
LinePx(p, off) == LET q == PixOf(p)  dx == q[3] - q[1]  dy == q[4] - q[2]  n == IF Abs(dx) > Abs(dy) THEN Abs(dx) ELSE Abs(dy) IN
    [i \in 1..(n + 1) |-> <<q[1] + (i - 1) * Sgn(dx) + off[1], q[2] + (i - 1) * Sgn(dy) + off[2]>>]
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
Members(s, g, k) == LET gs == GroupsOf(Angles(s.lines[g])) IN [j \in DOMAIN gs[k][2] |-> s.lines[g][gs[k][2][j]][1]]
Sums(s, e, g) ==
    LET a == GroupsOf(Angles(s.lines[g]))[e.k + 1][1]
        ms == Members(s, g, e.k + 1)
        px == Cat([j \in DOMAIN ms |-> LinePx(ms[j], e.off)])
        rows == [i \in DOMAIN px |-> Row(px[i], a, e.r)]
        at(f, z) == f[z[2] * e.w + z[1] + 1]
        uu == [i \in DOMAIN rows |-> Dev([k \in DOMAIN rows[i] |-> at(e.u, rows[i][k])])]
        vv == [i \in DOMAIN rows |-> Dev([k \in DOMAIN rows[i] |-> at(e.v, rows[i][k])])]
    IN <<SumSeq([i \in DOMAIN rows |-> Dot(uu[i], vv[i])]), SumSeq([i \in DOMAIN rows |-> Dot(vv[i], vv[i])]), SumSeq([i \in DOMAIN rows |-> Dot(uu[i], uu[i])])>>
Judged(s, e, g) == /\ ~Ambiguous(Angles(s.lines[g])) /\ e.corr = 0
                   /\ LET gs == GroupsOf(Angles(s.lines[g])) IN /\ e.k + 1 \in DOMAIN gs /\ (gs[e.k + 1][1] + 2250) % 4500 \in 4..4496
                                                               /\ \A j \in DOMAIN Members(s, g, e.k + 1) : Straight(Members(s, g, e.k + 1)[j])
SlopeBad(s, e, g) == LET q == Sums(s, e, g) IN
    IF q[2] = 0 THEN FALSE ELSE ~e.ok \/ Abs(e.slope * q[2] - 10000 * q[1]) > 2 * q[2]
Half(a, b, unit) == 2 * Abs(a * unit - b) <= unit + 4          \* a is b rounded to a multiple of unit
\* rows of the printed table: grain, group, angle in tenths, Euler angles in tenths
Table(s, e) == LET rows(g) == LET gs == GroupsOf(Angles(s.lines[g])) IN [k \in DOMAIN gs |-> <<g - 1, k - 1, gs[k][1]>>]
                   all == Cat([g \in DOMAIN s.lines |-> rows(g)]) IN
    Len(e.table) = Len(all) /\ \A i \in DOMAIN all : /\ e.table[i].g = all[i][1] /\ e.table[i].k = all[i][2] /\ Abs(10 * e.table[i].ang - all[i][3]) <= 7
                                                     /\ LET q == e.o.groups[all[i][1] + 1][all[i][2] + 1]  a == e.table[i] IN
                                                        a.planes = q.planes /\ a.dev = q.dev /\ Half(a.rdr, q.rdr, 100) /\ a.sf = Cases[c].top[all[i][1] + 1]
                                                     /\ \A a \in 1..3 : LET d == Abs(e.table[i].eul[a] - e.eul[all[i][1] + 1][a]) IN d <= 1 \/ d >= 3599
(* The windows.  The line and group tables and the strain of the grain shown;     *)
(* the groups are written again when lines or the grain shown change.             *)
Redraws == {"line", "remove", "clear", "goto", "load"}
Shown(t, e, i) ==
    LET g == t.cur  ls == t.lines[g]  w == e.shown  gs == GroupsOf(Angles(ls))  og == e.o.groups[g]  str == Cases[i].strain[g] IN
    no("grain-shown-text", w.seen[3] = 1 /\ w.grain = <<g - 1, Cases[i].n - 1>>)
    \cup (IF Len(w.strain) # 3 THEN {"strain-text"} ELSE
          no("strain-text", /\ \A k \in DOMAIN str : w.strain[1] <= str[k] + 1 /\ w.strain[3] >= str[k] - 1
                            /\ (\E k \in DOMAIN str : Abs(w.strain[1] - str[k]) <= 1) /\ (\E k \in DOMAIN str : Abs(w.strain[3] - str[k]) <= 1)
                            /\ Abs(w.strain[2] * Len(str) - SumSeq(str)) <= 2 * Len(str)))
    \cup no("line-table", /\ w.seen[1] = 1 /\ Len(w.lines) = Len(ls)
                          /\ \A k \in DOMAIN w.lines : /\ w.lines[k].id = k - 1 /\ \A q \in 1..4 : Half(w.lines[k].p[q], ls[k][1][q], 100)
                                                        /\ Half(w.lines[k].ang, ls[k][2], 10)
                                                        /\ (Ambiguous(Angles(ls)) \/ w.lines[k].grp = GroupNo(gs, k)))
    \cup (IF e.op \in Redraws /\ e.ok /\ ~Ambiguous(Angles(ls)) THEN
          no("group-table", /\ w.seen[2] = 1 /\ Len(w.groups) = Len(gs)
                            /\ \A k \in DOMAIN w.groups : /\ w.groups[k].id = k - 1 /\ Half(w.groups[k].ang, gs[k][1], 10) /\ Half(w.groups[k].rdr, t.rdr[g][k], 100)
                                                           /\ k \in DOMAIN og /\ w.groups[k].planes = og[k].planes /\ Len(w.groups[k].dev) = Len(og[k].dev)
                                                           /\ \A q \in DOMAIN og[k].dev : Half(w.groups[k].dev[q], og[k].dev[q], 10)) ELSE {})
\* every line drawn with its number, and nothing else once everything is drawn again; the crystal of the grain shown
Drawn(t, e) ==
    LET ls == t.lines[t.cur]  a == {e.arrows.at[k] : k \in DOMAIN e.arrows.at}  b == {e.arrows.tag[k] : k \in DOMAIN e.arrows.tag}
        wa == {ls[k][1] : k \in DOMAIN ls}  wb == {<<k - 1, ls[k][1][3], ls[k][1][4]>> : k \in DOMAIN ls} IN
    (IF e.ok /\ e.op \in Redraws THEN no("line-arrows", IF e.op = "line" THEN wa \subseteq a /\ wb \subseteq b ELSE a = wa /\ b = wb) ELSE {})
    \cup (IF e.ok /\ e.op \in {"goto", "load", "clear", "remove"} /\ e.cell # 0 THEN no("crystal-shown", e.cell = t.cur) ELSE {})
\* the window opened with a measured ratio
Window(s, e, i) ==
    LET g == e.of  w == e.win  gs == GroupsOf(Angles(s.lines[g]))  q == Sums(s, e, g)  og == e.o.groups[g]
        theo == Cases[i].theo[g]  active == og[e.k + 1].planes
        ms == Members(s, g, e.k + 1) IN
    no("ratio-window-angle", Len(w.ang) = 1 /\ Abs(w.ang[1] - gs[e.k + 1][1]) <= 2)
    \cup no("ratio-window-orientation", Len(w.eul) = 3 /\ \A a \in 1..3 : LET d == Abs(w.eul[a] - Cases[i].eul[g][a]) IN d <= 1 \/ d >= 3599)
    \cup no("ratio-window-slope", Len(w.fit) = 3 /\ Half(w.fit[1], e.slope, 10))
    \cup (IF Len(w.fit) # 3 \/ q[2] = 0 \/ q[3] = 0 THEN {} ELSE
          no("ratio-window-r-squared", Abs(10 * w.fit[2] * q[3] - e.slope * q[1]) <= 9 * q[3])
          \cup no("ratio-window-count", w.fit[3] = Len(Cat([j \in DOMAIN ms |-> LinePx(ms[j], e.off)]))))
    \cup no("ratio-window-planes", /\ Len(w.planes) = Len(theo)
                                   /\ \A k \in DOMAIN w.planes : /\ Half(w.planes[k].ang, theo[k], 10) /\ w.planes[k].sf = Cases[i].sch[g][k] /\ w.planes[k].rdr = Cases[i].tr[g][k]
                                                                  /\ w.planes[k].bold = (\E a \in DOMAIN active : active[a] = k - 1))
Bad(s, e, theo) ==
    LET r == StepI(s, e)  t == r.st  g == IF e.op = "rdr" THEN e.of ELSE s.cur IN
    no(IF e.ok THEN "accepted-" \o e.op ELSE "refused-" \o e.op, e.ok = r.ok \/ (e.op = "rdr" /\ ~e.ok /\ r.ok))
    \cup no("grain-shown", e.o.cur = t.cur)
    \cup (IF e.op = "line" /\ e.ok THEN no("line-points", \A i \in 1..4 : Abs(e.p[i] - e.drawn[i]) <= 1) \cup no("line-angle", Along(e.drawn, (e.ang + e.corr) % 36000))
                     \cup no("line-angle-range", e.ang + e.corr \in 0..18000) ELSE {})
    \cup (IF e.op = "rdr" /\ r.ok /\ Judged(s, e, g) THEN no("measured-ratio", ~SlopeBad(s, e, g)) ELSE {})
    \cup (IF e.op = "sta" /\ \A q \in DOMAIN s.lines : ~Ambiguous(Angles(s.lines[q])) THEN no("trace-analysis-table", Table(s, e)) ELSE {})
    \cup Shown(t, e, c) \cup Drawn(t, e)
    \cup (IF e.op = "rdr" /\ e.ok /\ e.opened = 1 /\ Judged(s, e, g) THEN Window(s, e, c) ELSE {})
    \cup Obs(t, e.o, 0, theo)
TraceInit == c \in 1..Len(Cases) /\ l = 0 /\ fl = 0 /\ st = NewInspector(Cases[c].n)
TraceNext ==
    /\ l < Len(Cases[c].ev) /\ fl = 0
    /\ LET e == Cases[c].ev[l + 1]
           b == Bad(st, e, Cases[c].theo)
       IN /\ c' = c /\ l' = l + 1 /\ st' = StepI(st, e).st
          /\ fl' = (IF b # {} THEN l + 1 ELSE fl)
          /\ (b # {}) => PrintT("FAIL " \o ToJson([case |-> c, l |-> l + 1, bad |-> b]))
Skip == fl > 0 /\ l < Len(Cases[c].ev) /\ l' = l + 1 /\ UNCHANGED <<c, st, fl>>
TraceSpec == TraceInit /\ [][TraceNext \/ Skip]_<<c, l, st, fl>>
=============================================================================
