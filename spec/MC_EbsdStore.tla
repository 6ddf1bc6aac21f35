----------------------------- MODULE MC_EbsdStore -----------------------------
(* Every history of building, editing, turning, saving and loading small maps.   *)
EXTENDS EbsdFile, TLC, Json
CONSTANTS MaxSteps, Gen, NPx
VARIABLES s, h, was
Names == {"a", "a.b"}
Px == 1..NPx
New(k) == [w |-> NPx, h |-> 1, step |-> k, phases |-> k, ph |-> [i \in Px |-> (i + k) % 3], eul |-> [i \in Px |-> <<i * 7, i + k, 30>>],
           bc |-> [i \in Px |-> 10 * i + k], bs |-> [i \in Px |-> 0], mad |-> [i \in Px |-> 0], hasbs |-> FALSE]
Ops == {[op |-> "dict", k |-> k, map |-> New(k)] : k \in 1..2}
       \cup {[op |-> "save", m |-> m, name |-> n] : m \in DOMAIN s.maps, n \in Names}
       \cup {[op |-> "badsave", m |-> m, name |-> "zz"] : m \in DOMAIN s.maps}
       \cup {[op |-> "baddict", k |-> 1, map |-> New(1)]}
       \cup {[op |-> "load", name |-> n] : n \in Names}
       \cup {[op |-> "turn", m |-> m] : m \in {x \in DOMAIN s.maps : s.maps[x].hasbs}}
       \cup {[op |-> "edit", m |-> m, k |-> k, v |-> 0, b |-> 99] : m \in DOMAIN s.maps, k \in Px}
Init == s = NewSession /\ h = <<>> /\ was = NewSession
Next == /\ Len(h) < MaxSteps
        /\ \E e \in Ops : LET r == StepF(s, e) IN
              /\ s' = r.st /\ was' = s
              /\ h' = (IF Gen THEN Append(h, e) ELSE Append(h, [op |-> e.op]))
Spec == Init /\ [][Next]_<<s, h, was>>
View == <<s, Len(h), was>>
InvKept == \A i \in DOMAIN s.disk : s.disk[i].map.hasbs
\* a file never changes once written, whatever is done to the maps
InvWritten == \A i \in DOMAIN was.disk : i \in DOMAIN s.disk /\ s.disk[i] = was.disk[i]
InvOnce == \A i, j \in DOMAIN s.disk : i # j => s.disk[i].name # s.disk[j].name
\* what is loaded is what was saved
InvLoad == Len(h) > 0 /\ h[Len(h)].op = "load" /\ Len(s.maps) > Len(was.maps) => \E i \in DOMAIN s.disk : s.disk[i].map = s.maps[Len(s.maps)]
\* turning twice gives every pixel back, up to whole turns
InvTurn == \A i \in DOMAIN s.maps : LET m == s.maps[i]  t == Half(Half(m)) IN
    /\ t.ph = m.ph /\ t.bc = m.bc /\ \A k \in Px : (t.eul[k][1] - m.eul[k][1]) % 360 = 0
Stop == Gen /\ Len(h) = MaxSteps => PrintT("TRACE " \o ToJson(h))
=============================================================================
