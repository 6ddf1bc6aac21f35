------------------------------- MODULE Inspector -------------------------------
(* Lines drawn in grains, their groups and the saved files (C23).  Angles in      *)
(* hundredths of a degree, positions in hundredths of a pixel.  State: lines of   *)
(* each grain <<end points, angle>>, measured displacement ratio of each group    *)
(* (None until measured), the grain shown and the files saved.                    *)
EXTENDS Integers, Sequences, FiniteSets
Abs(x) == IF x < 0 THEN -x ELSE x
Unmeasured == 0
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
\* mean to the nearest hundredth
Mean(s) == LET n == Len(s)  t == SumSeq(s) IN IF t >= 0 THEN (2 * t + n) \div (2 * n) ELSE -((2 * (-t) + n) \div (2 * n))
(* Grouping: lines in the order drawn; each joins the group with the nearest       *)
(* average, if that is less than ten degrees away, or starts a new group.          *)
\* gs: sequence of <<average, members>>
Nearest(gs, a) == CHOOSE k \in DOMAIN gs : \A j \in DOMAIN gs : /\ Abs(gs[k][1] - a) <= Abs(gs[j][1] - a)
                                                                 /\ (j < k => Abs(gs[j][1] - a) # Abs(gs[k][1] - a))
RECURSIVE Groups(_, _, _)
Groups(as, i, gs) ==
    IF i > Len(as) THEN gs
    ELSE LET a == as[i] IN
         IF gs # <<>> /\ Abs(gs[Nearest(gs, a)][1] - a) < 1000
         THEN LET k == Nearest(gs, a)  m == Append(gs[k][2], i) IN
              Groups(as, i + 1, [gs EXCEPT ![k] = <<Mean([j \in DOMAIN m |-> as[m[j]]]), m>>])
         ELSE Groups(as, i + 1, Append(gs, <<a, <<i>>>>))
GroupsOf(as) == Groups(as, 1, <<>>)
\* the choice of group depends on rounding
RECURSIVE Close(_, _, _)
Close(as, i, gs) ==
    IF i > Len(as) THEN FALSE
    ELSE LET a == as[i]  d(k) == Abs(gs[k][1] - a)
             amb == gs # <<>> /\ LET k == Nearest(gs, a) IN d(k) \in 997..1003 \/ (d(k) < 1000 /\ \E j \in DOMAIN gs : j # k /\ Abs(d(j) - d(k)) <= 3) IN
         amb \/ LET join == gs # <<>> /\ d(Nearest(gs, a)) < 1000 IN
                IF join THEN LET k == Nearest(gs, a)  m == Append(gs[k][2], i) IN
                             Close(as, i + 1, [gs EXCEPT ![k] = <<Mean([j \in DOMAIN m |-> as[m[j]]]), m>>])
                ELSE Close(as, i + 1, Append(gs, <<a, <<i>>>>))
Ambiguous(as) == Close(as, 1, <<>>)
GroupNo(gs, i) == (CHOOSE k \in DOMAIN gs : \E j \in DOMAIN gs[k][2] : gs[k][2][j] = i) - 1
Angles(ls) == [i \in DOMAIN ls |-> ls[i][2]]
NewInspector(n) == [lines |-> [g \in 1..n |-> <<>>], rdr |-> [g \in 1..n |-> <<>>], cur |-> 1, disk |-> <<>>]
Regroup(s, g) == [s EXCEPT !.rdr[g] = [k \in DOMAIN GroupsOf(Angles(s.lines[g])) |-> Unmeasured]]
DropAt(q, k) == [i \in 1..(Len(q) - 1) |-> IF i < k THEN q[i] ELSE q[i + 1]]
OnDisk(s, name) == {i \in DOMAIN s.disk : s.disk[i].name = name}
SaveAs(s, name) == LET f == [name |-> name, lines |-> s.lines, rdr |-> s.rdr] IN
    IF OnDisk(s, name) = {} THEN [s EXCEPT !.disk = Append(@, f)]
    ELSE [s EXCEPT !.disk = [i \in DOMAIN @ |-> IF @[i].name = name THEN f ELSE @[i]]]
LoadFrom(s, name) == LET f == s.disk[CHOOSE i \in OnDisk(s, name) : TRUE] IN
    [s EXCEPT !.lines = [g \in DOMAIN @ |-> IF f.lines[g] # <<>> THEN f.lines[g] ELSE @[g]],
              !.rdr = [g \in DOMAIN @ |-> IF f.lines[g] # <<>> THEN f.rdr[g] ELSE @[g]]]
\* e.ang: the angle of the new line
StepI(s, e) ==
    LET g == s.cur  n == Len(s.lines[g]) IN
    CASE e.op = "sta" -> [st |-> s, ok |-> TRUE]
      [] e.op = "line" -> [st |-> Regroup([s EXCEPT !.lines[g] = Append(@, <<e.p, e.ang>>)], g), ok |-> TRUE]
      [] e.op = "remove" -> IF e.k + 1 \notin 1..n THEN [st |-> s, ok |-> FALSE]
                            ELSE [st |-> Regroup([s EXCEPT !.lines[g] = DropAt(@, e.k + 1)], g), ok |-> TRUE]
      [] e.op = "clear" -> [st |-> [s EXCEPT !.lines[g] = <<>>, !.rdr[g] = <<>>], ok |-> TRUE]
      [] e.op = "goto" -> [st |-> [s EXCEPT !.cur = e.g], ok |-> TRUE]
      [] e.op = "save" -> [st |-> SaveAs(s, e.name), ok |-> TRUE]
      [] e.op = "load" -> IF OnDisk(s, e.name) = {} THEN [st |-> s, ok |-> FALSE] ELSE [st |-> LoadFrom(s, e.name), ok |-> TRUE]
      [] e.op = "rdr" -> IF e.k + 1 \notin DOMAIN s.rdr[e.of] THEN [st |-> s, ok |-> FALSE]     \* of any grain, not only the one shown
                         ELSE [st |-> [s EXCEPT !.rdr[e.of][e.k + 1] = e.slope], ok |-> TRUE]
(* Measured displacement ratio: least squares slope, through the centred values,   *)
(* of u against v over the pixels on and across the lines.                         *)
\* across a line at angle a: the direction of the eight nearest to its normal
Across(a) == LET q == ((a + 2250) \div 4500) % 4 IN IF q = 0 THEN <<1, 0>> ELSE IF q = 1 THEN <<1, -1>> ELSE IF q = 2 THEN <<0, 1>> ELSE <<1, 1>>
Row(z, a, r) == [k \in 1..(2 * r + 1) |-> <<z[1] + (k - r - 1) * Across(a)[1], z[2] + (k - r - 1) * Across(a)[2]>>]
\* (2r+1) times the deviation from the mean of a row
Dev(vals) == LET t == SumSeq(vals) IN [k \in DOMAIN vals |-> Len(vals) * vals[k] - t]
Dot(p, q) == SumSeq([k \in DOMAIN p |-> p[k] * q[k]])
=============================================================================
