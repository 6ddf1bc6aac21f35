-------------------------------- MODULE Linker --------------------------------
(* Linking EBSD maps (C24).  maps: [w, h, step, lab, n]; state: origin of each    *)
(* map, selected grain of each map (0: none), links, reference orientation of     *)
(* every grain (0: none, else a token).  Clicks in hundredths of a pixel.         *)
EXTENDS Integers, Sequences, FiniteSets
NewLinker(ms) == [origin |-> [i \in DOMAIN ms |-> <<0, 0>>], sel |-> [i \in DOMAIN ms |-> 0], links |-> <<>>,
                  ref |-> [i \in DOMAIN ms |-> [g \in 1..ms[i].n |-> 0]]]
Abs(x) == IF x < 0 THEN -x ELSE x
\* pixels are centred on whole numbers: the pixel under position a/b
Under(a, b) == (2 * a + b) \div (2 * b)
Inside(m, p) == p[1] \in 0..(m.w - 1) /\ p[2] \in 0..(m.h - 1)
\* label of the grain (0: none)
At(m, p) == IF ~Inside(m, p) THEN 0 ELSE LET v == m.lab[p[2] * m.w + p[1] + 1] IN IF v > 0 THEN v ELSE 0
Pix(z) == <<Under(z[1], 100), Under(z[2], 100)>>
\* numerator and denominator of the position in map i of a click z in the first map, in pixels
Num(ms, s, i, z, a) == (z[a] - 100 * s.origin[1][a]) * ms[1].step + 100 * s.origin[i][a] * ms[i].step
Den(ms, i) == 100 * ms[i].step
Guess(ms, s, i, z) == <<Under(Num(ms, s, i, z, 1), Den(ms, i)), Under(Num(ms, s, i, z, 2), Den(ms, i))>>
\* positions so close to a pixel edge that rounding decides
Edgy(ms, s, i, z) == \E a \in 1..2 : LET d == Den(ms, i)  r == Num(ms, s, i, z, a) % d IN
                        ms[i].step # ms[1].step /\ Abs(2 * r - d) < 2 * ms[i].step
Sel(s, ms, m, z) == LET g == At(ms[m], Pix(z)) IN IF g = 0 THEN s ELSE [s EXCEPT !.sel[m] = g]
LinkNow(s) == [i \in DOMAIN s.sel |-> s.sel[i] - 1]
Ready(s) == \A i \in DOMAIN s.sel : s.sel[i] # 0
\* every linked grain of a later map takes the first map's reference; links in order
RECURSIVE Master(_, _)
Master(s, k) == IF k > Len(s.links) THEN s
                ELSE LET l == s.links[k] IN
                     Master([s EXCEPT !.ref = [i \in DOMAIN s.ref |-> IF i = 1 THEN s.ref[1] ELSE [s.ref[i] EXCEPT ![l[i] + 1] = s.ref[1][l[1] + 1]]]], k + 1)
\* tokens above 0 are rotations about the map normal: one more than the angle in degrees, modulo a quarter turn
Angle(a, b) == LET d == Abs(a - b) % 90 IN IF d > 45 THEN 90 - d ELSE d
\* recalculating misorientations gives linked grains without a reference their mean
Fill(ms, s) == [s EXCEPT !.ref = [i \in DOMAIN s.ref |-> [g \in DOMAIN s.ref[i] |->
                   IF i > 1 /\ s.ref[i][g] = 0 /\ \E k \in DOMAIN s.links : s.links[k][i] = g - 1 THEN ms[i].own[g] ELSE s.ref[i][g]]]]
StepL(ms, s, e) ==
    CASE e.op = "origin" -> [st |-> [s EXCEPT !.origin[e.m] = Pix(e.z)], ok |-> TRUE]
      [] e.op = "click" -> IF ~e.inside THEN [st |-> s, ok |-> TRUE]
            ELSE IF e.m # 1 THEN [st |-> Sel(s, ms, e.m, e.z), ok |-> TRUE]
            ELSE LET t == Sel(s, ms, 1, e.z) IN
                 [st |-> [t EXCEPT !.sel = [i \in DOMAIN t.sel |-> IF i = 1 THEN t.sel[1] ELSE At(ms[i], Guess(ms, s, i, e.z))]], ok |-> TRUE]
      [] e.op = "link" -> IF ~Ready(s) THEN [st |-> s, ok |-> FALSE]
            ELSE [st |-> IF \E k \in DOMAIN s.links : s.links[k] = LinkNow(s) THEN s ELSE [s EXCEPT !.links = Append(@, LinkNow(s))], ok |-> TRUE]
      [] e.op = "reset" -> [st |-> [s EXCEPT !.links = <<>>], ok |-> TRUE]
      [] e.op = "ref" -> [st |-> [s EXCEPT !.ref[e.m][e.g] = e.v], ok |-> TRUE]
      [] e.op = "master" -> [st |-> Master(s, 1), ok |-> TRUE]
      [] e.op = "turn" -> [st |-> [s EXCEPT !.ref[1][e.g] = e.v], ok |-> TRUE]        \* the first map's orientation object is changed in place
      [] e.op = "misori" -> [st |-> Fill(ms, s), ok |-> TRUE]
=============================================================================
