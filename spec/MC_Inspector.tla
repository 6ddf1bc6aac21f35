----------------------------- MODULE MC_Inspector -----------------------------
EXTENDS Inspector, TLC, Json
CONSTANTS MaxSteps, Gen, Angs
VARIABLES s, h, was
P(a) == <<0, 0, a, 0>>
Names == {"a", "b"}
Ops == (IF Gen THEN {[op |-> "line", k |-> k] : k \in 1..14} ELSE {[op |-> "line", p |-> P(a), ang |-> a] : a \in Angs})
       \cup {[op |-> "remove", k |-> k] : k \in 0..(IF Gen THEN 3 ELSE 2)} \cup {[op |-> "clear"]} \cup {[op |-> "goto", g |-> g] : g \in 1..2}
       \cup {[op |-> "save", name |-> n] : n \in Names} \cup {[op |-> "load", name |-> n] : n \in Names}
       \cup (IF Gen THEN {[op |-> "sta"]} ELSE {}) \cup {[op |-> "rdr", k |-> k, slope |-> 7, of |-> g] : k \in 0..1, g \in 1..2}
Init == s = NewInspector(2) /\ h = <<>> /\ was = NewInspector(2)
Next == /\ Len(h) < MaxSteps
        /\ \E e \in Ops : s' = (IF Gen THEN s ELSE StepI(s, e).st) /\ was' = (IF Gen THEN was ELSE s) /\ h' = Append(h, IF Gen THEN e ELSE [op |-> e.op])
Spec == Init /\ [][Next]_<<s, h, was>>
Last == IF h = <<>> THEN "" ELSE h[Len(h)].op
View == <<s, was, Len(h), Last>>
G(g) == GroupsOf(Angles(s.lines[g]))
MemberSet(q) == {q[j] : j \in DOMAIN q}
InvOne == \A g \in 1..2 : \A i \in DOMAIN s.lines[g] : Cardinality({k \in DOMAIN G(g) : i \in MemberSet(G(g)[k][2])}) = 1
InvFull == \A g \in 1..2 : \A k \in DOMAIN G(g) : G(g)[k][2] # <<>>
InvMean == \A g \in 1..2 : \A k \in DOMAIN G(g) : LET m == G(g)[k][2] IN 2 * Abs(Len(m) * G(g)[k][1] - SumSeq([j \in DOMAIN m |-> s.lines[g][m[j]][2]])) <= Len(m)
InvRdr == \A g \in 1..2 : Len(s.rdr[g]) = Len(G(g))
InvFirst == \A g \in 1..2 : \A k, j \in DOMAIN G(g) : k < j => G(g)[k][2][1] < G(g)[j][2][1]
InvOther == /\ \A g \in 1..2 : Last \in {"line", "remove", "clear"} /\ g # was.cur => s.lines[g] = was.lines[g] /\ s.rdr[g] = was.rdr[g]
            /\ Last = "rdr" => s.lines = was.lines /\ Cardinality({g \in 1..2 : s.rdr[g] # was.rdr[g]}) <= 1
InvDisk == Last # "save" => s.disk = was.disk
InvSaved == Last = "save" => \E i \in DOMAIN s.disk : s.disk[i].lines = s.lines /\ s.disk[i].rdr = s.rdr
InvTwice == Last = "load" /\ s # was => \A n \in Names : OnDisk(s, n) # {} /\ (\A g \in 1..2 : s.lines[g] # <<>> => s.lines[g] = s.disk[CHOOSE i \in OnDisk(s, n) : TRUE].lines[g]) => LoadFrom(s, n).lines = s.lines
Stop == Gen /\ Len(h) = MaxSteps => PrintT("TRACE " \o ToJson(h))
=============================================================================
