----------------------------- MODULE MC_DicExtra -----------------------------
(* Histories of cropping, masking, loading and reporting on a small map.             *)
EXTENDS DicExtra, Json
CONSTANTS W, H, MaxLen, Gen, Ks, CropIds
VARIABLES st, hist
vars == <<st, hist>>
Full(w, h, o) == Img(w, h, [i \in 1..(w * h) |-> o + i])
Files == << Full(W, H, 0), Full(W, H, 100), Full(H, W, 200), Full(W + 1, H, 300) >>
Pats == << Full(W, H, 0), Full(2 * W, 2 * H, 0), Full(W, H, 50), Full(2 * W, H, 0), Full(2 * W, 2 * H, 40) >>
Items == [a |-> [comps |-> <<[i \in 1..(W * H) |-> (i * 7) % 11], [i \in 1..(W * H) |-> -i]>>, idx |-> <<"1", "2">>],
          b |-> [comps |-> <<[i \in 1..(W * H) |-> IF i % 4 = 0 THEN NaN ELSE i * i]>>, idx |-> <<"">>]]
M == [w |-> W, h |-> H, files |-> Files, pats |-> Pats, items |-> Items]
Crops == << <<0,0,0,0>>, <<1,0,0,1>>, <<0,1,1,0>>, <<2,0,0,0>>, <<0,0,1,1>>, <<0,0,2,0>>, <<1,1,0,1>> >>
Ops == {[op |-> "crop", d |-> Crops[k]] : k \in CropIds}
       \cup {[op |-> "corr", f |-> f, fmt |-> t] : f \in DOMAIN Files, t \in {"ok", "other"}} \cup {[op |-> "getcorr"], [op |-> "readpat"]}
       \cup {[op |-> "setpat", f |-> f, k |-> k] : f \in DOMAIN Pats, k \in Ks}
       \cup {[op |-> "stats", names |-> n, ps |-> p] : n \in {<<"a">>, <<"b", "a">>, <<"zz">>, <<"a", "zz">>}, p \in {<<0, 50, 100>>, <<37>>}}
Masks == {<<>>, <<<<0, 0>>>>, [i \in 1..(CW(M, st) * CH(M, st)) |-> <<(i-1) % CW(M, st), (i-1) \div CW(M, st)>>]}
Do(op) == /\ Len(hist) < MaxLen
          /\ st' = Step(M, st, op)[1]
          /\ hist' = (IF Gen THEN Append(hist, op) ELSE <<>>)
Init == st = Init0 /\ hist = <<>>
Next == \/ \E op \in Ops : (op.op = "crop" => st.mask = {}) /\ Do(op)
        \/ \E px \in Masks : Do([op |-> "mask", px |-> px])
Spec == Init /\ [][Next]_vars
\* the pattern read is the cropped part of the asked-for image, in step with map data read the same way
InvPattern == LET r == Step(M, st, [op |-> "readpat"]) IN
    r[2] => /\ r[3].w = CW(M, st) * st.pat.k /\ r[3].h = CH(M, st) * st.pat.k
            /\ r[3].v[1] = Pats[st.pat.f].v[st.crop[3] * st.pat.k * Pats[st.pat.f].w + st.crop[1] * st.pat.k + 1]
InvCorr == st.corr = NoImg \/ (st.corr.w = W /\ st.corr.h = H)
\* statistics: extremes are the extremes, percentiles do not decrease, masked points do not count
InvStats == \A r \in {Rows(M, st, <<"a", "b">>, <<0, 25, 50, 100>>)} : \A i \in DOMAIN r :
    /\ \A q \in 1..3 : r[i].vals[q] <= r[i].vals[q + 1]
    /\ LET s == Live(M, st, Items[r[i].name].comps[IF r[i].idx = "2" THEN 2 ELSE 1]) IN
         IF s = <<>> THEN r[i].vals[1] = NaN
         ELSE r[i].vals[1] = 10000 * MinOf(s) /\ r[i].vals[4] = 10000 * MaxOfS(s)
InvCounts == \A j \in 1..2 : LET s == Live(M, st, Items.a.comps[j]) IN
    s # <<>> => SumS(Counts("lin", s, Edges(MinOf(s), MaxOfS(s) + 1, 3))) = Len(s)
Stop == (Gen /\ Len(hist) = MaxLen) => PrintT("TRACE " \o ToJson(hist))
=============================================================================
