------------------------------- MODULE MC_Plots -------------------------------
(* Laws of component selection, for every small datum and component.             *)
EXTENDS Plots
CONSTANT Vals
VARIABLES d, c
vars == <<d, c>>
None == [k |-> "none", v |-> <<>>, s |-> ""]
Comps == {None} \cup {[k |-> "int", v |-> <<i>>, s |-> ""] : i \in 0..2}
         \cup {[k |-> "tup", v |-> v, s |-> ""] : v \in {<<0>>, <<1>>, <<2>>} \cup {<<i, j>> : i \in 0..2, j \in 0..2}}
         \cup {[k |-> "str", v |-> <<>>, s |-> s] : s \in {"norm", "NORM", "other"}}
Dims == {<<>>, <<1>>, <<2>>, <<1, 2>>, <<2, 2>>}
Prod(dm) == IF dm = <<>> THEN 1 ELSE IF Len(dm) = 1 THEN dm[1] ELSE dm[1] * dm[2]
Init == /\ c \in Comps
        /\ \E dm \in Dims, df \in {None, [k |-> "int", v |-> <<0>>, s |-> ""], [k |-> "str", v |-> <<>>, s |-> "norm"]} :
              \E cs \in [1..Prod(dm) -> [1..1 -> Vals \cup {NaN}]] :
                 d = [comps |-> cs, order |-> Len(dm), dims |-> dm, dflt |-> df, clabel |-> "e", unit |-> "um"]
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
\* every component is reachable by exactly one index, and nothing is shown when it does not fit
InvOne == c.k = "tup" /\ Fits(d, c) => \A o \in Comps : (o.k = "tup" /\ Fits(d, o) /\ Flat(d, o.v) = Flat(d, c.v)) => o = c
InvIn == Fits(d, c) /\ Bare(d, c) => Flat(d, Comp(d, c).v) \in DOMAIN d.comps
InvAll == \A k \in DOMAIN d.comps : \E o \in Comps \cup {[k |-> "tup", v |-> <<>>, s |-> ""]} : o.k = "tup" /\ Len(o.v) = d.order /\ Fits(d, o) /\ Flat(d, o.v) = k
InvDflt == c.k # "none" => Comp(d, c) = c
InvNorm == Fits(d, c) /\ ~Bare(d, c) => \A i \in DOMAIN Shown(d, c) : Shown(d, c)[i] = NaN \/ \A j \in DOMAIN d.comps : Shown(d, c)[i] >= d.comps[j][i] * d.comps[j][i]
InvMask == Fits(d, c) /\ ~Bare(d, c) => \A j \in DOMAIN d.comps : d.comps[j][1] = NaN => Shown(d, c)[1] = NaN
InvLabel == Fits(d, c) => BarLabel(d, c) # ""
=============================================================================
