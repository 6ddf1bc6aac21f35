----------------------------- MODULE MC_Crystals -----------------------------
EXTENDS Crystals, Json, TLC
CONSTANTS Depth, Gen
VARIABLES st, hist, last
vars == <<st, hist, last>>
\* orientations 1 and 2 for the grains, 3 and 4 set by hand; in Gen the harness fills in the world
W == IF Gen THEN [o |-> <<<<1, 2, 3>>, <<1, 2, 3>>>>, ph |-> <<<<1, 2, 1>>, <<2, 1, 1>>>>]
     ELSE [o |-> <<<<1, 2>>, <<2>>>>, ph |-> <<<<1, 2>>, <<1>>>>]
M == 1..NMaps(W)
D == 1..(IF Gen THEN 4 ELSE 2)
Qs == IF Gen THEN 1..4 ELSE {3}
Writes == [op : {"link", "avg"}, m : M] \cup {[op |-> "find"]} \cup UNION {[op : {"setref"}, m : {m}, g : 1..Len(W.o[m]), q : Qs] : m \in M}
          \cup UNION {[op : {"trace"}, m : {m}, g : 1..Len(W.o[m])] : m \in M}
          \cup [op : {"dtrace"}, d : D] \cup [op : {"schmid"}, m : M, v : 1..2]
Looks == [op : {"look", "print"}, d : D]
Extras == IF Gen THEN [op : {"prim"}, m : M, p : 1..2] \cup [op : {"scale", "shear"}, k : 1..3] \cup [op : {"mask"}, k : 0..2]
                      \cup {[op |-> "sym"], [op |-> "av"], [op |-> "map"]} \cup [op : {"plotd"}, d : D]
          ELSE {}
Init == st = NewC(W) /\ hist = <<>> /\ last = [op |-> "none"]
Do(e) == Len(hist) < Depth /\ CanC(st, e) /\ st' = Step(W, st, e).st /\ hist' = Append(hist, e) /\ last' = e
Prefix == <<[op |-> "link", m |-> 1], [op |-> "find"]>>
Next == IF Gen /\ Len(hist) < 2 THEN Do(Prefix[Len(hist) + 1])
        ELSE (\E e \in Writes : Do(e)) \/ (\E e \in Looks : Do(e)) \/ (\E e \in Extras : Do(e))
Spec == Init /\ [][Next]_vars
InvCrystal == \A d \in DOMAIN st.gs : st.gs[d][2] = d /\ st.gs[d][1] \in M
\* everything calculated rests on a reference
InvRef == \A m \in M : \A g \in 1..Len(W.o[m]) : (st.tr[m][g] # 0 \/ st.sf[m][g] # <<>>) => st.ref[m][g] # 0
\* asking a deformation grain and asking its crystal are the same
InvSame == \A d \in DOMAIN st.gs : LET c == st.gs[d] IN
    Step(W, st, [op |-> "dtrace", d |-> d]).st = Step(W, st, [op |-> "trace", m |-> c[1], g |-> c[2]]).st
\* looking twice shows the same, and never forgets a calculation
InvLook == \A d \in DOMAIN st.gs : LET s2 == Step(W, st, [op |-> "look", d |-> d]).st IN
    /\ Step(W, s2, [op |-> "look", d |-> d]).st = s2
    /\ \A m \in M : \A g \in 1..Len(W.o[m]) : st.tr[m][g] # 0 => s2.tr[m][g] = st.tr[m][g]
\* after a report the traces are those of the reference
InvReport == last.op = "print" /\ Known(st, last.d) => LET c == st.gs[last.d] IN st.tr[c[1]][c[2]] = st.ref[c[1]][c[2]]
\* linking another map leaves the grains found with the crystals they had
KeepCrystals == [][(\E m \in M : last' = [op |-> "link", m |-> m]) => st'.gs = st.gs]_vars
Stop == (Gen /\ Len(hist) = Depth) => PrintT("TRACE " \o ToJson(hist))
View == <<st, last, Len(hist)>>
=============================================================================
