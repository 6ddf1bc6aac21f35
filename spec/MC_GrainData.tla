----------------------------- MODULE MC_GrainData -----------------------------
(* Laws of grain data movement, for every labelling of a small map: what a map   *)
(* shows is what its grains hold, and moving data there and back changes nothing. *)
EXTENDS GrainData
CONSTANTS W, H, Vals
VARIABLES lab, img, lists, phase
vars == <<lab, img, lists, phase>>
N == W * H
PixAt(k) == << (k-1) % W, (k-1) \div W >>
NG == LET s == {lab[k] : k \in 1..N} \cap {1, 2} IN Cardinality(s)
\* labels used without gaps
Init == /\ lab \in {f \in [1..N -> {-2, 1, 2}] : (\E k \in 1..N : f[k] = 2) => (\E k \in 1..N : f[k] = 1)}
        /\ img \in [1..N -> Vals] /\ lists = <<>> /\ phase = "map"
Pts(g) == LET RECURSIVE Col(_)
              Col(k) == IF k > N THEN <<>> ELSE (IF lab[k] = g THEN <<PixAt(k)>> ELSE <<>>) \o Col(k + 1)
          IN Col(1)
PP == [g \in 1..NG |-> Pts(g)]
ToGrains == phase = "map" /\ lists' = [g \in 1..NG |-> Gather(img, W, PP[g])] /\ phase' = "grains" /\ UNCHANGED <<lab, img>>
Edit == phase = "grains" /\ NG > 0 /\ \E g \in 1..NG, v \in Vals :
           lists' = [lists EXCEPT ![g] = Const(v, Len(PP[g]))] /\ phase' = "edited" /\ UNCHANGED <<lab, img>>
Back == phase \in {"grains", "edited"} /\ img' = Scatter(PP, lists, W, H, 0) /\ phase' = "map2" /\ UNCHANGED <<lab, lists>>
Next == ToGrains \/ Edit \/ Back
Spec == Init /\ [][Next]_vars
InvBack == phase = "map2" => \A g \in 1..NG : Gather(img, W, PP[g]) = lists[g]
InvBg == phase = "map2" => \A k \in 1..N : lab[k] < 1 => img[k] = 0
InvFill == \A v \in Vals : phase = "map" =>
    Fill(PP, [j \in 1..NG |-> j - 1], [j \in 1..NG |-> v + j], W, H, 0) = [k \in 1..N |-> IF lab[k] > 0 THEN v + lab[k] ELSE 0]
InvBox == phase = "map" => \A g \in 1..NG :
    LET im == GrainImage(PP[g], Gather(img, W, PP[g]), -1)
    IN \A k \in 1..Len(im) : (im[k] # -1) <=>
         (At(lab, W, << MinX(PP[g]) + ((k-1) % BoxW(PP[g])), MinY(PP[g]) + ((k-1) \div BoxW(PP[g])) >>) = g)
=============================================================================
