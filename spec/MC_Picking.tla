------------------------------ MODULE MC_Picking ------------------------------
EXTENDS Picking, Json, TLC, Randomization
CONSTANTS W, H, MaxSteps, Gen
VARIABLES s, n, hist
vars == <<s, n, hist>>
Bins == {1, 2} \cup (IF Gen THEN {3, 4} ELSE {})
Half(n0, b) == LET q == n0 \div b  r == n0 % b IN IF 2 * r >= b THEN q + 1 ELSE q
Xs == {20 + 100 * i : i \in 0..(W - 1)} \cup {-30} \cup (IF Gen THEN {45 + 100 * i : i \in 0..(W - 1)} \cup {55 + 100 * i : i \in 0..(W - 2)} \cup {10 + 100 * i : i \in 0..(W - 1)} \cup {100 * i - 20 : i \in 1..(W - 1)} ELSE {})
Ys == {20 + 100 * i : i \in 0..(H - 1)} \cup {-30} \cup (IF Gen THEN {-46, 48} \cup {90 + 100 * i : i \in 0..(H - 2)} ELSE {})
Ps == DOMAIN s.plots
Do(e) == n < MaxSteps /\ LET r == StepP(s, e) IN s' = r.st /\ n' = n + 1 /\ hist' = (IF Gen THEN Append(hist, e) ELSE hist)
Open == Len(s.plots) < 2 /\ \E f \in 1..2, b \in Bins : Do([op |-> "open", f |-> f, bin |-> b])
Some(S, k) == IF Gen THEN RandomSubset(k, S) ELSE S
Click == \E p \in Ps, x \in Some(Xs, 1), y \in Some(Ys, 2), b \in {1, 2, 3}, m \in {"", "shift"} \cup (IF Gen THEN {"control"} ELSE {}), i \in (IF Gen THEN {TRUE, TRUE, FALSE} ELSE {TRUE, FALSE}) :
             (Gen \/ i \/ (x = 20 /\ y = 20)) /\ Do([op |-> "click", p |-> p, x |-> x, y |-> y, button |-> b, mod |-> m, inside |-> i])
Key == \E p \in Ps, k \in {"left", "right", "up", "down", "a"} \cup (IF Gen THEN {"none", "enter"} ELSE {}), m \in {"", "shift"} \cup (IF Gen THEN {"ctrl", "alt"} ELSE {}) : Do([op |-> "key", p |-> p, key |-> k, mod |-> m])
Save == \E p \in Ps : Do([op |-> "save", p |-> p, saved |-> LET w == s.plots[p] IN IF w.sel = None THEN None ELSE <<Half(w.sel[1], w.bin), Half(w.sel[2], w.bin)>>])
Edit == \E f \in 1..2, i \in -1..2 : \/ Do([op |-> "put", f |-> f, i |-> i, v |-> <<7, 1>>])
                                     \/ Do([op |-> "shift", f |-> f, i |-> i, v |-> <<2, -3>>])
Set == \E f \in 1..2, ps \in {<<>>, <<<<1, 2>>>>, <<<<3, 4>>, <<0, 0>>>>} : Do([op |-> "set", f |-> f, pts |-> ps])
NotInt == Gen /\ \E f \in 1..2 : Do([op |-> "notint", f |-> f])
Init == s = NewPick(2) /\ n = 0 /\ hist = <<>>
Next == Open \/ Click \/ Key \/ Save \/ Edit \/ Set \/ NotInt
\* generated histories: mostly clicks, keys and saves on open plots
GenNext == IF Len(s.plots) = 0 \/ (Len(s.plots) = 1 /\ RandomElement(1..12) = 1) THEN Open
           ELSE LET r == RandomElement(1..20) IN IF r <= 7 THEN Click ELSE IF r <= 12 THEN Key ELSE IF r <= 16 THEN Save ELSE IF r <= 18 THEN Edit ELSE IF r = 19 THEN Set ELSE NotInt
Spec == Init /\ [][Next]_vars
GenSpec == Init /\ [][GenNext]_vars
Small(k) == k \in -12..12
Bound == \A i \in Ps : s.plots[i].sel # None => Small(s.plots[i].sel[1]) /\ Small(s.plots[i].sel[2])
\* the points of the other frame are untouched, only edits shrink or change stored points
InvRound == \A i \in Ps : LET w == s.plots[i] IN w.sel # None => \A k \in 1..2 : Rounded(Half(w.sel[k], w.bin), w.sel[k], w.bin)
InvShape == \A f \in 1..2, i \in 1..4 : i \in DOMAIN s.pts[f] => Len(s.pts[f][i]) = 2
Append1 == [][\A e \in {[op |-> "save", p |-> p, saved |-> <<1, 1>>] : p \in Ps} : SavedOk(s, e) /\ s.plots[e.p].sel # None =>
               LET t == StepP(s, e).st  f == s.plots[e.p].f IN Len(t.pts[f]) = Len(s.pts[f]) + 1 /\ t.pts[3 - f] = s.pts[3 - f] /\ t.plots[e.p].sel = None /\ StepP(t, e).st = t]_vars
InvShown == \A i \in Ps : Len(s.plots[i].shown) >= 0
Stop == (Gen /\ n = MaxSteps) => PrintT("TRACE " \o ToJson(hist))
=============================================================================
