---------------------------- MODULE MC_Datastore ----------------------------
(* Exhaustive exploration of the store design, and behaviour generator.       *)
(* Nodes: 1 = a map's store (spatial presentation), 2 = a grain's store,       *)
(* 3 = the store of a second map linked onto the first.                        *)
EXTENDS Datastore, Json, Randomization
CONSTANTS MaxSteps, Scen, Rich, GenTrace
VARIABLES st, hist, n0

K == IF Rich THEN {"a", "b", "p", "q"} ELSE {"a", "p"}
MapM == [type |-> "map"]
LstM == [type |-> "list"]
BndM == [type |-> "boundaries"]
Metas == IF Rich THEN {MapM, [type |-> "map", cropped |-> "T"], [type |-> "map", binning |-> "2", apply_mask |-> "F"],
                       LstM, BndM, Empty, [type |-> "map", save |-> "F"]}
         ELSE {MapM, LstM}

Link12 == [op |-> "link", n |-> 1, o |-> 2, f |-> "up", inp |-> LstM, outp |-> MapM, ref |-> "T"]
\* a link's own metadata wins whatever its value, also an empty one
LstE == [type |-> "list", unit |-> "", save |-> "F"]
Link21 == [op |-> "link", n |-> 2, o |-> 1, f |-> "pick", inp |-> MapM, outp |-> IF Rich THEN LstE ELSE LstM, ref |-> "F"]
Link31 == [op |-> "link", n |-> 3, o |-> 1, f |-> "warp", inp |-> BndM, outp |-> Empty, ref |-> "F"]
Link32 == [op |-> "link", n |-> 3, o |-> 2, f |-> "upd", inp |-> LstM, outp |-> MapM, ref |-> "F"]
\* a chain: the second map sees the first map's data, its grains see the second map's
LinkM == [op |-> "link", n |-> 3, o |-> 1, f |-> "warp", inp |-> MapM, outp |-> Empty, ref |-> "F"]
Link43 == [op |-> "link", n |-> 4, o |-> 3, f |-> "sub", inp |-> MapM, outp |-> LstM, ref |-> "F"]
Gen1 == [op |-> "addgen", n |-> 1, keys |-> <<"a", "b">>, ms |-> <<MapM, [type |-> "map", save |-> "F"]>>, gid |-> "g1", mode |-> "ok"]
Gen2 == [op |-> "addgen", n |-> 2, keys |-> <<"p", "q">>, ms |-> <<LstM, LstM>>, gid |-> "g2", mode |-> "ok"]
GenB == [op |-> "addgen", n |-> 1, keys |-> <<"d">>, ms |-> <<BndM>>, gid |-> "g3", mode |-> "once"]
GenC == [op |-> "addgen", n |-> 3, keys |-> <<"c">>, ms |-> <<MapM>>, gid |-> "g4", mode |-> "ok"]
AddP == [op |-> "add", n |-> 2, k |-> "pt", v |-> "v0", m |-> LstM]

Prefix == CASE Scen = 1 -> <<>>
            [] Scen = 2 -> <<Gen1, AddP, Link21, Link12>>
            [] Scen = 3 -> <<Gen1, GenB, AddP, Gen2, Link21, Link12, GenC, Link31, Link32>>
            [] Scen = 4 -> <<Gen1, AddP, Link21, Link12, LinkM, GenC, Link43>>
Grps == IF Scen = 4 THEN <<"m", "g", "d", "e">> ELSE <<"m", "g", "d">>
Crops == IF Scen = 4 THEN <<"T", "F", "T", "F">> ELSE <<"T", "F", "T">>
Nodes == IF Scen \in {1, 2} THEN {1, 2} ELSE 1..Len(Grps)

RECURSIVE Fold(_, _, _)
Fold(s, ops, i) == IF i > Len(ops) THEN s ELSE Fold(Step(s, ops[i]).st, ops, i + 1)

Vals == {"v1", "v2"}
AllK == K \cup (IF Rich THEN {"d", "pt", "zz"} ELSE {"pt"})

Reads == {[op |-> o, n |-> n, k |-> k] : o \in {"get"}, n \in Nodes, k \in AllK}
Writes == {[op |-> "set", n |-> n, k |-> k, v |-> v] : n \in Nodes, k \in AllK, v \in (IF Rich THEN Vals \cup {"None"} ELSE {"v1"})}
          \cup {[op |-> "gen", n |-> n, k |-> k] : n \in Nodes, k \in AllK}
Names == {[op |-> "add", n |-> n, k |-> k, v |-> v, m |-> m] : n \in Nodes, k \in K, v \in {"v2"}, m \in Metas}
         \cup {[op |-> "addgen", n |-> n, keys |-> ks, ms |-> [i \in 1..Len(ks) |-> m], gid |-> "h" \o ToString(n) \o ks[1], mode |-> md] :
                 n \in Nodes, ks \in (IF Rich THEN {<<"p">>, <<"q", "p">>, <<"b", "q", "a">>} ELSE {<<"p", "a">>}),
                 m \in (IF Rich THEN {MapM, LstM, [type |-> "list", save |-> "F"]} ELSE {LstM}), md \in (IF Rich THEN {"ok", "once", "short"} ELSE {"ok"})}
         \cup {[op |-> "update", n |-> n, o |-> o, pri |-> p] : n \in Nodes, o \in Nodes, p \in {"self", "other"}}
Views == {[op |-> o, n |-> n] : o \in (IF Rich THEN {"keys", "len", "iter", "star"} ELSE {}), n \in Nodes}
         \cup {[op |-> o, n |-> n, k |-> k] : o \in (IF Rich THEN {"has", "getattr"} ELSE {}), n \in Nodes, k \in AllK}
         \cup {[op |-> o, n |-> n, k |-> k, a |-> a] : o \in (IF Rich THEN {"meta", "item"} ELSE {}), n \in Nodes, k \in AllK, a \in {"type", "unit", "save"}}
MetaW == {[op |-> "setm", n |-> n, k |-> k, a |-> a, v |-> v] : n \in Nodes, k \in AllK,
             a \in {"type"}, v \in (IF Rich THEN {"map", "list", "boundaries"} ELSE {"list"})}
         \cup (IF Rich THEN {[op |-> "setm", n |-> n, k |-> k, a |-> "unit", v |-> "px"] : n \in Nodes, k \in AllK} ELSE {})
Links == {Link12, Link21} \cup (IF 3 \in Nodes THEN {Link31, Link32,
             [Link31 EXCEPT !.inp = MapM], [Link32 EXCEPT !.ref = "T"],
             [Link31 EXCEPT !.o = 2], [Link32 EXCEPT !.o = 1], [Link31 EXCEPT !.o = 2, !.inp = LstM],
             [Link12 EXCEPT !.o = 3], [Link21 EXCEPT !.o = 3]}
             \cup (IF 4 \in Nodes THEN {Link43, LinkM, [Link43 EXCEPT !.ref = "T"], [Link12 EXCEPT !.o = 4, !.ref = "F"],
                                       [Link43 EXCEPT !.o = 1]} ELSE {})
             \cup (IF Rich THEN {[Link31 EXCEPT !.inp = [type |-> "map", unit |-> "px"]],
                                 [Link32 EXCEPT !.inp = [type |-> "list", save |-> "F"]],
                                 [Link31 EXCEPT !.inp = Empty, !.outp = [unit |-> "None"]]} ELSE {}) ELSE {})

\* a store merged with itself, or a new name shadowing a linked one, is outside the contract
Legal(s, op) ==
    /\ op.op = "update" => op.n # op.o /\ \A k \in SeqSet(s.nodes[op.o].own) :
          k \in SeqSet(s.nodes[op.n].own) \/ ~Visible(s, op.n, k)
    /\ op.op = "addgen" => \/ \A i \in 1..Len(op.keys) : ~Visible(s, op.n, op.keys[i])
                           \/ Visible(s, op.n, op.keys[1])
    /\ op.op = "addgen" => op.gid \notin {s.nodes[n].gens[i].gid : n \in Nodes, i \in 1..0}
    /\ \A n \in Nodes : ~HasDup(Keys(Step(s, op).st, n))

Pick(ops) == IF GenTrace /\ MaxSteps > 4 THEN RandomSubset(IF Cardinality(ops) < 3 THEN Cardinality(ops) ELSE 3, ops) ELSE ops
Act(ops) == \E op \in Pick(ops) : Legal(st, op) /\ st' = Step(st, op).st
              /\ hist' = (IF GenTrace THEN Append(hist, op) ELSE hist)
              /\ n0' = n0 + 1
Read == n0 < MaxSteps /\ Act(Reads)
Write == n0 < MaxSteps /\ Act(Writes)
Name == n0 < MaxSteps /\ Act(Names)
View == n0 < MaxSteps /\ Views # {} /\ Act(Views)
SetProp == n0 < MaxSteps /\ Act(MetaW)
Relink == n0 < MaxSteps /\ Act(Links)

Init == st = Fold(NewState(Grps, Crops), Prefix, 1) /\ hist = (IF GenTrace THEN Prefix ELSE <<>>) /\ n0 = 0
Next == Read \/ Write \/ Name \/ View \/ SetProp \/ Relink
NextNV == Read \/ Write \/ Name \/ SetProp \/ Relink
Spec == Init /\ [][Next]_<<st, hist, n0>>
SpecNV == Init /\ [][NextNV]_<<st, hist, n0>>

InvLazy == LazyOnce(st)
InvNames == NamesOk(st)
InvLinks == LinksOk(st)
RunBound == \A g \in DOMAIN st.runs : st.runs[g] <= 2
Stop == (GenTrace /\ n0 = MaxSteps) => PrintT("TRACE " \o ToJson(hist))
=============================================================================
