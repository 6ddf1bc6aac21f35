------------------------------- MODULE MC_Linker -------------------------------
EXTENDS Linker, TLC, Json
CONSTANTS MaxSteps, Gen
VARIABLES s, h, was
M1 == [own |-> <<1, 16, 31>>, w |-> 3, h |-> 2, step |-> 2, n |-> 3, lab |-> <<1, 1, 2, 3, -1, 2>>]
M2 == [own |-> <<1, 46>>, w |-> 4, h |-> 3, step |-> 1, n |-> 2, lab |-> <<1, 1, 2, 2, 1, 1, 2, 2, 1, 0, 0, 2>>]
M3 == [own |-> <<61, 1>>, w |-> 3, h |-> 2, step |-> 2, n |-> 2, lab |-> <<1, 1, 2, 1, 2, 2>>]
MS == <<M1, M2, M3>>
Px == IF Gen THEN 0..20 ELSE {0, 1, 2}
Py == IF Gen THEN 0..20 ELSE {0, 1}
Z(x, y) == <<100 * x + 30, 100 * y - 20>>
Clicks(m) == {Z(x, y) : x \in Px \cap 0..(IF Gen THEN 20 ELSE MS[m].w - 1), y \in Py \cap 0..(IF Gen THEN 20 ELSE MS[m].h - 1)}
Ops == {[op |-> "click", m |-> m, z |-> z, inside |-> i] : m \in 1..3, z \in (IF Gen THEN {Z(0, 1)} ELSE Clicks(1)), i \in (IF Gen THEN BOOLEAN ELSE {TRUE})}
       \cup {[op |-> "origin", m |-> m, z |-> z] : m \in 1..2, z \in (IF Gen THEN {Z(0, 1)} ELSE {Z(1, 1)})}
       \cup {[op |-> "link"], [op |-> "link"], [op |-> "reset"], [op |-> "master"], [op |-> "misori"]}
       \cup {[op |-> "ref", m |-> m, g |-> g, v |-> v] : m \in 1..2, g \in 1..2, v \in 1..2}
       \cup (IF Gen THEN {[op |-> "turn", g |-> g, v |-> 3] : g \in 1..2}
                         \cup {[op |-> "click", m |-> 1, z |-> Z(k, 0), inside |-> TRUE] : k \in 1..12} \cup {[op |-> "link", k |-> k] : k \in 1..6} ELSE {})
Init == s = NewLinker(MS) /\ h = <<>> /\ was = NewLinker(MS)
Next == /\ Len(h) < MaxSteps
        /\ \E e \in Ops : s' = (IF Gen THEN s ELSE StepL(MS, s, e).st) /\ was' = s /\ h' = Append(h, IF Gen THEN e ELSE [op |-> e.op])
Spec == Init /\ [][Next]_<<s, h, was>>
View == <<s, was, Len(h), IF h = <<>> THEN "" ELSE h[Len(h)].op>>
Last == IF h = <<>> THEN "" ELSE h[Len(h)].op
InvOnce == \A i, j \in DOMAIN s.links : i # j => s.links[i] # s.links[j]
InvGrains == \A k \in DOMAIN s.links, i \in 1..3 : s.links[k][i] \in 0..(MS[i].n - 1)
InvLink == Last = "link" => (Ready(was) => \E k \in DOMAIN s.links : s.links[k] = LinkNow(was)) /\ (~Ready(was) => s = was)
InvKeep == Last # "reset" => \A k \in DOMAIN was.links : k \in DOMAIN s.links /\ s.links[k] = was.links[k]
InvMaster == Last = "master" => /\ s.ref[1] = was.ref[1]
    /\ \A i \in 2..3 : \A g \in 1..MS[i].n : (\A k \in DOMAIN s.links : s.links[k][i] # g - 1) => s.ref[i][g] = was.ref[i][g]
InvFill == Last = "misori" => /\ s.links = was.links /\ \A k \in DOMAIN s.links : \A i \in 2..3 : s.ref[i][s.links[k][i] + 1] # 0
    /\ \A i \in 1..3 : \A g \in 1..MS[i].n : was.ref[i][g] # 0 => s.ref[i][g] = was.ref[i][g]
InvOnly == Last = "origin" => s.sel = was.sel
\* with equal steps and origins the guess is the clicked pixel itself
InvSame == \A x \in 0..2, y \in 0..1 : s.origin[1] = s.origin[3] => Guess(MS, s, 3, Z(x, y)) = <<x, y>>
Stop == Gen /\ Len(h) = MaxSteps => PrintT("TRACE " \o ToJson(h))
=============================================================================
