------------------------------- MODULE MC_Book -------------------------------
EXTENDS Book, Json, TLC, Randomization
CONSTANTS MaxSteps, Gen
VARIABLES s, n, hist
vars == <<s, n, hist>>
NE == IF Gen THEN 3 ELSE 2
Do(e) == n < MaxSteps /\ s' = StepB(s, e).st /\ n' = n + 1 /\ hist' = (IF Gen THEN Append(hist, e) ELSE hist)
Inc == \E x \in 1..NE, m \in (IF Gen THEN {0, 5, 9} ELSE {0}) : Do([op |-> "inc", exp |-> x, meta |-> m])
MapOps == [op : {"map"}, exp : 0..NE, inc : 0..Len(s.incs), frame : {0, -1} \cup (1..Len(s.maps)), name : {"", "a"} \cup (IF Gen THEN {"b", "ebsd"} ELSE {}),
           kind : IF Gen THEN {"ebsd", "hrdic"} ELSE {"ebsd"}]
Map == \E e \in (IF Gen THEN RandomSubset(6, MapOps) ELSE MapOps) : Do(e)
Attach == Gen /\ Len(s.maps) > 0 /\ Len(s.incs) > 0 /\ Do([op |-> "attach", inc |-> RandomElement(1..Len(s.incs)), name |-> RandomElement({"a", "z"}), m |-> RandomElement(1..Len(s.maps))])
Read == Gen /\ \/ Do([op |-> "iter", exp |-> RandomElement(1..NE), name |-> RandomElement({"a", "b", "ebsd", "hrdic", "z"})])
               \/ Do([op |-> "get", exp |-> RandomElement(2..NE), k |-> RandomElement(-3..3)])
Points == Gen /\ Len(s.maps) > 0 /\ \/ Do([op |-> "pts", m |-> RandomElement(1..Len(s.maps)), pts |-> RandomElement({<<>>, <<<<1, 2>>>>, <<<<3, 4>>, <<5, 6>>>>})])
                                    \/ Do([op |-> "addpt", m |-> RandomElement(1..Len(s.maps)), d |-> RandomElement(1..3)])
Init == s = NewBook(NE) /\ n = 0 /\ hist = <<>>
Next == Inc \/ Map \/ Attach \/ Read \/ Points
Spec == Init /\ [][Next]_vars
\* each increment in one experiment, in order of creation
InvIncs == /\ \A x \in DOMAIN s.exps : \A i, j \in DOMAIN s.exps[x] : i < j => s.exps[x][i] < s.exps[x][j]
           /\ \A i \in DOMAIN s.incs : i \in {s.exps[s.incs[i].exp][k] : k \in DOMAIN s.exps[s.incs[i].exp]}
           /\ \A x, y \in DOMAIN s.exps : x # y => {s.exps[x][k] : k \in DOMAIN s.exps[x]} \cap {s.exps[y][k] : k \in DOMAIN s.exps[y]} = {}
InvMaps == \A m \in DOMAIN s.maps : LET ins == {i \in DOMAIN s.incs : \E k \in DOMAIN s.incs[i].maps : s.incs[i].maps[k][2] = m}
                                    IN ins \subseteq {s.maps[m].inc}
InvNames == \A i \in DOMAIN s.incs : \A j, k \in DOMAIN s.incs[i].maps : j # k => s.incs[i].maps[j][1] # s.incs[i].maps[k][1]
InvLast == \A m \in DOMAIN s.maps : m = Len(s.maps) => \E k \in DOMAIN s.incs[s.maps[m].inc].maps : s.incs[s.maps[m].inc].maps[k][2] = m
InvIter == \A x \in DOMAIN s.exps, nm \in {"a", "ebsd"} : LET r == Iter(s, x, nm) IN
               /\ \A i, j \in DOMAIN r : i < j => r[i][1] < r[j][1]
               /\ \A i \in DOMAIN r : s.incs[s.exps[x][r[i][1] + 1]].exp = x
InvFrames == Cardinality({s.maps[m].frame : m \in DOMAIN s.maps}) = Len(s.pts)
Stop == (Gen /\ n = MaxSteps) => PrintT("TRACE " \o ToJson(hist))
=============================================================================
