----------------------------- MODULE MC_MisView -----------------------------
(* Every order of setting references, calculating and viewing, for N grains.      *)
EXTENDS MisView, Json
CONSTANTS N, Depth, Gen
VARIABLES st, tr, dirty
vars == <<st, tr, dirty>>
Mean == [g \in 1..N |-> <<100 + g>>]
Ops == [op : {"set"}, g : 1..N, q : {<<1>>, <<2>>}] \cup [op : {"calc"}, axis : BOOLEAN]
       \cup [op : {"build"}, g : 1..N, axis : BOOLEAN] \cup [op : {"show"}, comp : 0..3]
       \cup [op : {"showg"}, g : 1..N, comp : 0..3] \cup {[op |-> "avg"], [op |-> "seg"]}
Can(o) == o.op = "seg" => \A g \in 1..N : st.ref[g] # <<>>
Init == st = Start(N) /\ tr = <<>> /\ dirty = [g \in 1..N |-> {}]
Next == /\ Len(tr) < Depth
        /\ \E o \in Ops : Can(o) /\ st' = Step(st, o, Mean) /\ tr' = Append(tr, o)
              /\ dirty' = [g \in 1..N |->      \* lists older than the reference
                    IF st'.ref[g] # st.ref[g] THEN {l \in {"ang", "ax"} : (IF l = "ang" THEN st'.ang ELSE st'.ax)[g] \notin {<<>>, st'.ref[g]}}
                    ELSE IF o.op \in {"calc", "build"} /\ (o.op = "calc" \/ o.g = g) THEN dirty[g] \ ({"ang"} \cup (IF o.axis THEN {"ax"} ELSE {}))
                    ELSE IF st'.ang[g] = st'.ref[g] /\ st'.ax[g] = st'.ref[g] THEN {}
                    ELSE {l \in dirty[g] : (IF l = "ang" THEN st'.ang ELSE st'.ax)[g] # st'.ref[g]}]
Spec == Init /\ [][Next]_vars
Small == [st |-> st, dirty |-> dirty]
InvRef == \A g \in 1..N : (st.ang[g] # <<>> \/ st.ax[g] # <<>>) => st.ref[g] # <<>>
InvBoth == \A g \in 1..N : st.ax[g] # <<>> => st.ang[g] # <<>>
InvFresh == \A g \in 1..N : /\ "ang" \notin dirty[g] => st.ang[g] \in {<<>>, st.ref[g]}
                            /\ "ax" \notin dirty[g] => st.ax[g] \in {<<>>, st.ref[g]}
InvShown == LET n == Len(tr) IN n > 0 =>
    LET o == tr[n] IN /\ o.op = "show" => \A g \in 1..N : Have(st, o.comp)[g] # <<>>
                      /\ o.op = "showg" => Have(st, o.comp)[o.g] # <<>>
                      /\ o.op \in {"calc", "build"} => \A g \in 1..N : (o.op = "calc" \/ o.g = g) => st.ang[g] = st.ref[g]
\* laws of the values, on the palette
Idx == {1, 2, 3, 7, 9, 14, 16, 21, 25}
InvZero == tr = <<>> => \A i \in Idx : LET q == UnitF(Palette[i]) IN
    /\ \A s \in {"cubic", "hexagonal"} : \A c \in 0..3 : ShowOk(s, q, q, c, 0, 3) /\ ~ ShowOk(s, q, q, c, 500, 8)
    /\ \A h \in {6, 20, 40} : LET p == MulF(AxisF(2, h), q)        \* turned by h degrees about x
                              IN ShowOk("cubic", q, p, 0, 100 * h, 6) /\ ~ ShowOk("cubic", q, p, 0, 100 * h + 20, 6)
                                 /\ ShowOk("cubic", q, p, 1, -100 * h, 6) /\ ShowOk("cubic", q, p, 2, 0, 6) /\ ~ ShowOk("cubic", q, p, 1, 100 * h, 6)
Stop == (Gen /\ Len(tr) = Depth) => PrintT("TRACE " \o ToJson(tr))
=============================================================================
