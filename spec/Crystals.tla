------------------------------ MODULE Crystals ------------------------------
(* Grains of a deformation map and the EBSD grains they belong to (C40): which   *)
(* crystal a deformation grain speaks for, and what that crystal says at every   *)
(* moment of a history of links, searches, references and calculations.          *)
(* w: the fixed world [o, ph], the orientation and phase of every EBSD grain.     *)
EXTENDS Integers, Sequences, FiniteSets
NMaps(w) == Len(w.o)
NewC(w) == [link |-> 0, found |-> FALSE, gs |-> <<>>,
            ref |-> [m \in 1..NMaps(w) |-> [g \in 1..Len(w.o[m]) |-> 0]],
            tr  |-> [m \in 1..NMaps(w) |-> [g \in 1..Len(w.o[m]) |-> 0]],
            sf  |-> [m \in 1..NMaps(w) |-> [g \in 1..Len(w.o[m]) |-> <<>>]],
            prim |-> [m \in 1..NMaps(w) |-> 1], scale |-> 0, shear |-> 1, mask |-> 0]
\* the reference of a grain is its mean unless one was set
Ref(w, s, m, g) == IF s.ref[m][g] = 0 THEN w.o[m][g] ELSE s.ref[m][g]
Refd(w, s, m, g) == [s EXCEPT !.ref[m][g] = Ref(w, s, m, g)]
\* traces are calculated from the reference, and kept
Traced(w, s, m, g) == [Refd(w, s, m, g) EXCEPT !.tr[m][g] = Ref(w, s, m, g)]
Traces(w, s, m, g) == IF s.tr[m][g] = 0 THEN Traced(w, s, m, g) ELSE s
Schmid(w, s, m, v) == [s EXCEPT !.ref[m] = [g \in DOMAIN @ |-> Ref(w, s, m, g)],
                                !.sf[m] = [g \in DOMAIN @ |-> <<Ref(w, s, m, g), v>>]]
Crystal(s, d) == s.gs[d]
Known(s, d) == d \in DOMAIN s.gs
Ok(s) == [st |-> s, ok |-> TRUE]
No(s) == [st |-> s, ok |-> FALSE]
Step(w, s, e) ==
    CASE e.op = "link" -> Ok([s EXCEPT !.link = e.m])
      [] e.op = "find" -> IF s.link = 0 THEN No(s)
                          ELSE Ok([s EXCEPT !.found = TRUE, !.gs = [g \in 1..Len(w.o[s.link]) |-> <<s.link, g>>]])
      [] e.op = "setref" -> Ok([s EXCEPT !.ref[e.m][e.g] = e.q])
      [] e.op = "avg" -> Ok([s EXCEPT !.ref[e.m] = [g \in DOMAIN @ |-> w.o[e.m][g]]])
      [] e.op = "trace" -> Ok(Traced(w, s, e.m, e.g))
      [] e.op = "dtrace" -> IF Known(s, e.d) THEN Ok(Traced(w, s, Crystal(s, e.d)[1], Crystal(s, e.d)[2])) ELSE No(s)
      [] e.op = "schmid" -> Ok(Schmid(w, s, e.m, e.v))
      [] e.op = "prim" -> Ok([s EXCEPT !.prim[e.m] = e.p])
      [] e.op = "scale" -> Ok([s EXCEPT !.scale = e.k])
      [] e.op = "shear" -> Ok([s EXCEPT !.shear = e.k])
      [] e.op = "mask" -> Ok([s EXCEPT !.mask = e.k])
      \* looking at a grain calculates its traces if there are none
      [] e.op \in {"look", "plotd"} -> IF Known(s, e.d) THEN Ok(Traces(w, s, Crystal(s, e.d)[1], Crystal(s, e.d)[2])) ELSE No(s)
      \* the report uses traces of the present reference and the Schmid factors last calculated
      [] e.op = "print" -> IF ~ Known(s, e.d) THEN No(s)
                           ELSE LET c == Crystal(s, e.d)  s2 == Traced(w, s, c[1], c[2])
                                IN [st |-> s2, ok |-> s.sf[c[1]][c[2]] # <<>>]
      [] e.op = "sym" -> IF s.link = 0 THEN No(s) ELSE Ok(s)
      [] e.op \in {"map", "av"} -> Ok(s)
\* av needs grains; the default plot of a grain shows a scale bar; of the map, boundaries
CanC(s, e) == CASE e.op = "av" -> s.found [] e.op = "plotd" -> s.scale > 0 /\ s.mask = 0 [] e.op = "map" -> s.link # 0
                [] e.op = "mask" -> s.link = s.link [] OTHER -> TRUE
=============================================================================
