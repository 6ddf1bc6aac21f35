------------------------------- MODULE Picking -------------------------------
(* Picking homologous points on interactive plots (C12).                         *)
(* pts[f]: points of frame f; plots: windows [f, bin, sel, shown].                *)
EXTENDS Integers, Sequences
None == <<>>
Under(c) == (c + 50) \div 100            \* the pixel under a position in hundredths
Scale(ps, b) == [i \in DOMAIN ps |-> <<ps[i][1] * b, ps[i][2] * b>>]
NewPick(n) == [pts |-> [i \in 1..n |-> <<>>], plots |-> <<>>]
Move(k, m) == CASE k = "left" -> <<-m, 0>> [] k = "right" -> <<m, 0>> [] k = "up" -> <<0, -m>> [] k = "down" -> <<0, m>>
Arrow(k) == k \in {"left", "right", "up", "down"}
Add(p, d) == <<p[1] + d[1], p[2] + d[2]>>
\* r is a correct rounding of n/b
Rounded(r, n, b) == 2 * (r * b - n) <= b /\ 2 * (n - r * b) <= b
\* the saved point is an outcome of the implementation among the correct roundings
StepP(s, e) ==
    CASE e.op = "open" -> [st |-> [s EXCEPT !.plots = Append(@, [f |-> e.f, bin |-> e.bin, sel |-> None, shown |-> Scale(s.pts[e.f], e.bin)])], ok |-> TRUE]
      [] e.op = "click" -> [st |-> IF e.inside /\ (e.button = 3 \/ (e.button = 1 /\ e.mod = "shift"))
                                   THEN [s EXCEPT !.plots[e.p].sel = <<Under(e.x), Under(e.y)>>] ELSE s, ok |-> TRUE]
      [] e.op = "key" -> [st |-> IF Arrow(e.key) /\ s.plots[e.p].sel # None
                                 THEN [s EXCEPT !.plots[e.p].sel = Add(@, Move(e.key, IF e.mod = "shift" THEN 10 ELSE 1))] ELSE s, ok |-> TRUE]
      [] e.op = "save" -> [st |-> LET w == s.plots[e.p] IN IF w.sel = None THEN s
                                  ELSE LET ps == Append(s.pts[w.f], e.saved)
                                       IN [s EXCEPT !.pts[w.f] = ps, !.plots[e.p].sel = None, !.plots[e.p].shown = Scale(ps, w.bin)], ok |-> TRUE]
      [] e.op = "set" -> [st |-> [s EXCEPT !.pts[e.f] = e.pts], ok |-> TRUE]
      [] e.op = "put" -> IF e.i >= Len(s.pts[e.f]) \/ e.i < 0 THEN [st |-> s, ok |-> FALSE] ELSE [st |-> [s EXCEPT !.pts[e.f][e.i + 1] = e.v], ok |-> TRUE]
      [] e.op = "shift" -> IF e.i >= Len(s.pts[e.f]) THEN [st |-> s, ok |-> FALSE]
                           ELSE [st |-> [s EXCEPT !.pts[e.f] = [j \in DOMAIN @ |-> IF e.i < 0 \/ j = e.i + 1 THEN Add(@[j], e.v) ELSE @[j]]], ok |-> TRUE]
      [] e.op = "notint" -> [st |-> s, ok |-> FALSE]
SavedOk(s, e) == e.op = "save" /\ s.plots[e.p].sel # None =>
                 /\ e.saved # None
                 /\ \A k \in 1..2 : Rounded(e.saved[k], s.plots[e.p].sel[k], s.plots[e.p].bin)
=============================================================================
