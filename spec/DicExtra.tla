------------------------------ MODULE DicExtra ------------------------------
(* What else a DIC map holds and reports: correlation values, the pattern image,    *)
(* statistics and histograms of the data as currently cropped and masked.           *)
(* Images are row by row; NaN is -999999.                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
NaN == -999999
Img(w, h, v) == [w |-> w, h |-> h, v |-> v]
NoImg == Img(0, 0, <<>>)
\* m: the map <<w, h, binning, files (images on disk), items>>
Init0 == [crop |-> <<0, 0, 0, 0>>, mask |-> {}, corr |-> NoImg, pat |-> [set |-> FALSE, f |-> 1, k |-> 1]]
CW(m, st) == m.w - st.crop[1] - st.crop[2]
CH(m, st) == m.h - st.crop[3] - st.crop[4]
\* window (in map pixels, k image pixels each) of an image
Cut(im, st, cw, ch, k) ==
    LET W == cw * k  H == ch * k  x0 == st.crop[1] * k  y0 == st.crop[3] * k
    IN Img(W, H, [i \in 1..(W * H) |-> im.v[(y0 + ((i-1) \div W)) * im.w + x0 + ((i-1) % W) + 1]])
Shown(m, st, comp) == Cut(Img(m.w, m.h, comp), st, CW(m, st), CH(m, st), 1)
\* values that count: neither masked nor missing
Live(m, st, comp) ==
    LET s == Shown(m, st, comp)
        keep == SelectSeq([i \in 1..Len(s.v) |-> <<i, s.v[i]>>], LAMBDA p : p[2] # NaN /\ <<(p[1]-1) % s.w, (p[1]-1) \div s.w>> \notin st.mask)
    IN [i \in DOMAIN keep |-> keep[i][2]]
Sorted(v) == SortSeq(v, LAMBDA a, b : a < b)
\* percentile p (0..100) by linear interpolation, ten-thousandths
Percentile(s, p) == IF Len(s) = 0 THEN NaN
    ELSE LET h == p * (Len(s) - 1)  k == h \div 100  r == h % 100
         IN s[k + 1] * 10000 + (IF r = 0 THEN 0 ELSE 100 * r * (s[k + 2] - s[k + 1]))
Rows(m, st, names, ps) ==
    FlattenSeq([i \in DOMAIN names |-> LET it == m.items[names[i]] IN
        [j \in DOMAIN it.comps |-> LET s == Sorted(Live(m, st, it.comps[j])) IN
            [name |-> names[i], idx |-> it.idx[j], vals |-> [q \in DOMAIN ps |-> Percentile(s, ps[q])]]]])
\* counts between consecutive edges, the last interval closed; kind lin: edges are twice the
\* value, kind log: edges are exponents e of 10^(e/2)
Pow10(e) == CASE e = 0 -> 1 [] e = 1 -> 10 [] e = 2 -> 100 [] e = 3 -> 1000 [] e = 4 -> 10000 [] e = 5 -> 100000 [] e = 6 -> 1000000 [] OTHER -> 10000000
Below(kind, v, e) == IF kind = "lin" THEN 2 * v < e ELSE v * v < Pow10(e)
AtMost(kind, v, e) == IF kind = "lin" THEN 2 * v <= e ELSE v * v <= Pow10(e)
Counts(kind, s, edges) ==
    [i \in 1..(Len(edges) - 1) |-> Cardinality({j \in DOMAIN s : ~Below(kind, s[j], edges[i]) /\
        (IF i = Len(edges) - 1 THEN AtMost(kind, s[j], edges[i + 1]) ELSE Below(kind, s[j], edges[i + 1]))})]
RECURSIVE SumS(_)
SumS(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumS(Tail(s))
Heights(kind, s, edges, density) ==      \* ten-thousandths
    LET c == Counts(kind, s, edges)  n == SumS(c)
    IN [i \in DOMAIN c |-> IF ~density THEN 10000 * c[i] ELSE (20000 * c[i]) \div (n * (edges[2] - edges[1]))]
Edges(lo, hi, n) == [i \in 1..n |-> 2 * lo + ((2 * (hi - lo)) * (i - 1)) \div (n - 1)]
MinOf(s) == CHOOSE x \in {s[i] : i \in DOMAIN s} : \A i \in DOMAIN s : x <= s[i]
MaxOfS(s) == CHOOSE x \in {s[i] : i \in DOMAIN s} : \A i \in DOMAIN s : x >= s[i]
HistData(m, st, op) == IF op.src = "item" THEN Live(m, st, m.items[op.item].comps[op.j]) ELSE SelectSeq(op.raw, LAMBDA v : v # NaN)
HistEdges(m, st, op) == IF op.logx THEN [i \in 1..op.bins |-> i - 1]
    ELSE IF op.dflt THEN LET s == HistData(m, st, op) IN Edges(MinOf(s), MaxOfS(s), op.bins)
    ELSE Edges(op.lo, op.hi, op.bins)
Kind(op) == IF op.logx THEN "log" ELSE "lin"

Res(ok, im) == [ok |-> ok, im |-> im]
Step(m, st, op) ==      \* <<next, ok, image>>
    CASE op.op = "crop" -> <<[st EXCEPT !.crop = op.d], TRUE, NoImg>>
      [] op.op = "mask" -> <<[st EXCEPT !.mask = {op.px[i] : i \in DOMAIN op.px}], TRUE, NoImg>>
      [] op.op = "corr" -> LET f == m.files[op.f] IN
            IF op.fmt = "ok" /\ f.w = m.w /\ f.h = m.h THEN <<[st EXCEPT !.corr = f], TRUE, NoImg>> ELSE <<st, FALSE, NoImg>>
      [] op.op = "getcorr" -> <<st, TRUE, st.corr>>
      [] op.op = "setpat" -> <<[st EXCEPT !.pat = [set |-> TRUE, f |-> op.f, k |-> op.k]], TRUE, NoImg>>
      [] op.op = "readpat" ->
            IF st.pat.set /\ m.pats[st.pat.f].w = m.w * st.pat.k /\ m.pats[st.pat.f].h = m.h * st.pat.k
            THEN <<st, TRUE, Cut(m.pats[st.pat.f], st, CW(m, st), CH(m, st), st.pat.k)>> ELSE <<st, FALSE, NoImg>>
      [] op.op = "stats" -> <<st, \A i \in DOMAIN op.names : op.names[i] \in DOMAIN m.items, NoImg>>
      [] OTHER -> <<st, TRUE, NoImg>>
=============================================================================
