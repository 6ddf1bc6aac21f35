------------------------------ MODULE Datastore ------------------------------
(* Design of the lazily generated, linkable data stores behind every map and  *)
(* grain.  One action per public call; each call is a pure step               *)
(*        Step(st, op) = [st |-> next state, ok |-> BOOLEAN, v |-> <<strings>>]*)
(* so that the same operator drives the exhaustive design model, generates    *)
(* behaviours to replay and judges recorded executions.                       *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, SequencesExt

Empty == [x \in {} |-> ""]
SeqSet(s) == {s[i] : i \in 1..Len(s)}
GetOr(f, a, d) == IF a \in DOMAIN f THEN f[a] ELSE d
Put(f, a, v) == [x \in DOMAIN f \cup {a} |-> IF x = a THEN v ELSE f[x]]
Merge(f, g) == [x \in DOMAIN f \cup DOMAIN g |-> IF x \in DOMAIN g THEN g[x] ELSE f[x]]
HasDup(s) == Cardinality(SeqSet(s)) # Len(s)

(* --- state ---------------------------------------------------------------*)
(* nodes: sequence of stores; node = [grp, crop, own, items, gens, ders]       *)
(*   own   : names in insertion order      items[k] = [data, meta]             *)
(*   gens  : sequence of [keys, gid, mode] mode: "ok" | "once" | "short"       *)
(*   ders  : sequence of [src, f, inp, outp, ref]                              *)
(* runs: times each generator function has been called                         *)
NewNode(grp, crop) == [grp |-> grp, crop |-> crop, own |-> <<>>,
                       items |-> [x \in {} |-> [data |-> "", meta |-> Empty]],
                       gens |-> <<>>, ders |-> <<>>]
NewState(grps, crops) ==
    [nodes |-> [i \in 1..Len(grps) |-> NewNode(grps[i], crops[i])],
     runs |-> [g \in {} |-> 0]]

(* --- name resolution ------------------------------------------------------*)
RECURSIVE VisKeys(_, _, _), Match(_, _, _, _), MetaV(_, _, _, _, _), Flatten2(_)
Flatten2(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flatten2(Tail(ss))

(* all names seen from node n when the groups in vis are already being visited *)
VisKeys(st, n, vis) ==
    st.nodes[n].own \o
    Flatten2([i \in 1..Len(st.nodes[n].ders) |-> Match(st, n, vis, st.nodes[n].ders[i])])

(* names a link d of node n brings in: those of the source whose properties    *)
(* match; a group that is already being visited contributes nothing (cycles)   *)
Match(st, n, vis, d) ==
    LET v2 == vis \cup {st.nodes[n].grp} IN
    IF st.nodes[d.src].grp \in v2 THEN <<>>
    ELSE SelectSeq(VisKeys(st, d.src, v2),
                   LAMBDA k : \A a \in DOMAIN d.inp : MetaV(st, d.src, v2, k, a) = d.inp[a])

FirstLink(st, n, vis, k) ==
    LET ds == st.nodes[n].ders
        I == {i \in 1..Len(ds) : k \in SeqSet(Match(st, n, vis, ds[i]))}
    IN IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : i <= j

(* property of an item as seen from n; "None" when there is none               *)
MetaV(st, n, vis, k, a) ==
    LET nd == st.nodes[n] IN
    IF k \in SeqSet(nd.own) THEN GetOr(nd.items[k].meta, a, "None")
    ELSE LET i == FirstLink(st, n, vis, k) IN
         IF i = 0 THEN "None"
         ELSE IF a \in DOMAIN nd.ders[i].outp THEN nd.ders[i].outp[a]
         ELSE MetaV(st, nd.ders[i].src, vis, k, a)

Keys(st, n) == VisKeys(st, n, {})
Visible(st, n, k) == k \in SeqSet(Keys(st, n))

(* --- generation -----------------------------------------------------------*)
GenOf(nd, k) ==
    LET I == {i \in 1..Len(nd.gens) : k \in SeqSet(nd.gens[i].keys)}
    IN IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : i <= j

GenVal(gid, run, i) == gid \o "." \o ToString(run) \o "." \o ToString(i)

(* run the generator holding k; value is the raw generated value of k          *)
RunGen(st, n, k) ==
    LET nd == st.nodes[n]
        gi == GenOf(nd, k)
    IN IF gi = 0 THEN [st |-> st, ok |-> FALSE, nogen |-> TRUE, v |-> ""]
       ELSE LET g == nd.gens[gi]
                run == GetOr(st.runs, g.gid, 0) + 1
                st1 == [st EXCEPT !.runs = Put(st.runs, g.gid, run)]
                fails == (g.mode = "once" /\ run = 1) \/ (g.mode = "short" /\ Len(g.keys) > 1)
                idx(kk) == CHOOSE i \in 1..Len(g.keys) : g.keys[i] = kk
                saved(kk) == GetOr(nd.items[kk].meta, "save", "T") # "F"
                items2 == [kk \in DOMAIN nd.items |->
                             IF kk \in SeqSet(g.keys) /\ saved(kk)
                             THEN [nd.items[kk] EXCEPT !.data = GenVal(g.gid, run, idx(kk))]
                             ELSE nd.items[kk]]
            IN IF fails THEN [st |-> st1, ok |-> FALSE, nogen |-> FALSE, v |-> ""]
               ELSE [st |-> [st1 EXCEPT !.nodes[n].items = items2],
                     ok |-> TRUE, nogen |-> FALSE, v |-> GenVal(g.gid, run, idx(k))]

(* spatial data is cropped first and masked afterwards, unless flagged          *)
Present(nd, meta, raw) ==
    IF nd.crop # "T" \/ GetOr(meta, "type", "None") # "map" THEN raw
    ELSE LET c == IF GetOr(meta, "cropped", "F") = "T" THEN raw
                  ELSE "c" \o GetOr(meta, "binning", "1") \o "(" \o raw \o ")"
         IN IF GetOr(meta, "apply_mask", "T") = "T" THEN "m(" \o c \o ")" ELSE c

RECURSIVE Get(_, _, _)
Get(st, n, k) ==
    LET nd == st.nodes[n] IN
    IF k \in SeqSet(nd.own) THEN
        LET it == nd.items[k]
            r == RunGen(st, n, k)
        IN IF it.data # "None"
           THEN [st |-> st, ok |-> TRUE, v |-> Present(nd, it.meta, it.data)]
           ELSE IF r.ok THEN [st |-> r.st, ok |-> TRUE, v |-> Present(nd, it.meta, r.v)]
           ELSE IF r.nogen THEN [st |-> st, ok |-> TRUE, v |-> Present(nd, it.meta, "None")]
           ELSE [st |-> r.st, ok |-> FALSE, v |-> ""]
    ELSE LET i == FirstLink(st, n, {}, k) IN
         IF i = 0 THEN [st |-> st, ok |-> FALSE, v |-> ""]
         ELSE LET d == nd.ders[i] IN
              IF "data" \in DOMAIN d.outp THEN [st |-> st, ok |-> TRUE, v |-> d.outp["data"]]
              ELSE IF d.ref = "T" THEN [st |-> st, ok |-> TRUE, v |-> d.f \o "#" \o k]
              ELSE LET r == Get(st, d.src, k)
                   IN [st |-> r.st, ok |-> r.ok, v |-> IF r.ok THEN d.f \o "(" \o r.v \o ")" ELSE ""]

(* reading a property by name: refused if the item or the property is missing   *)
RECURSIVE ItemAttr(_, _, _, _)
ItemAttr(st, n, k, a) ==
    LET nd == st.nodes[n] IN
    IF k \in SeqSet(nd.own)
    THEN IF a \in DOMAIN nd.items[k].meta THEN [ok |-> TRUE, v |-> nd.items[k].meta[a]]
         ELSE [ok |-> FALSE, v |-> ""]
    ELSE LET i == FirstLink(st, n, {}, k) IN
         IF i = 0 THEN [ok |-> FALSE, v |-> ""]
         ELSE IF a \in DOMAIN nd.ders[i].outp THEN [ok |-> TRUE, v |-> nd.ders[i].outp[a]]
         ELSE ItemAttr(st, nd.ders[i].src, k, a)

(* --- steps ----------------------------------------------------------------*)
Ok(st, v) == [st |-> st, ok |-> TRUE, v |-> v]
No(st) == [st |-> st, ok |-> FALSE, v |-> <<>>]

AddItem(st, n, k, data, meta) ==
    [st EXCEPT !.nodes[n].own = Append(@, k),
               !.nodes[n].items = Put(@, k, [data |-> data, meta |-> meta])]
RECURSIVE AddAll(_, _, _, _, _)
AddAll(st, n, keys, metas, i) ==
    IF i > Len(keys) THEN st
    ELSE AddAll(AddItem(st, n, keys[i], "None", metas[i]), n, keys, metas, i + 1)

MergeStores(a, b, pri) ==
    \* a receives b; pri = "self" keeps a's item on a clash
    LET own == IF pri = "self" THEN b.own \o SelectSeq(a.own, LAMBDA k : k \notin SeqSet(b.own))
               ELSE a.own \o SelectSeq(b.own, LAMBDA k : k \notin SeqSet(a.own))
        items == IF pri = "self" THEN Merge(b.items, a.items) ELSE Merge(a.items, b.items)
    IN [a EXCEPT !.own = own, !.items = items]

LinkAt(nd, f) ==
    LET I == {i \in 1..Len(nd.ders) : nd.ders[i].f = f}
    IN IF I = {} THEN 0 ELSE CHOOSE i \in I : TRUE

Step(st, op) ==
    LET n == op.n
        nd == st.nodes[n]
    IN
    CASE op.op \in {"get", "getattr"} ->
            LET r == Get(st, n, op.k) IN [st |-> r.st, ok |-> r.ok, v |-> IF r.ok THEN <<r.v>> ELSE <<>>]
      [] op.op = "item" ->
            LET r == ItemAttr(st, n, op.k, op.a) IN [st |-> st, ok |-> r.ok, v |-> IF r.ok THEN <<r.v>> ELSE <<>>]
      [] op.op = "meta" ->
            LET r == ItemAttr(st, n, op.k, op.a) IN Ok(st, IF r.ok THEN <<r.v>> ELSE <<"dflt">>)
      [] op.op \in {"set", "setattr"} ->
            IF op.k \in SeqSet(nd.own)
            THEN Ok([st EXCEPT !.nodes[n].items[op.k].data = op.v], <<>>) ELSE No(st)
      [] op.op = "setm" ->
            IF op.k \in SeqSet(nd.own)
            THEN Ok([st EXCEPT !.nodes[n].items[op.k].meta = Put(@, op.a, op.v)], <<>>) ELSE No(st)
      [] op.op = "add" ->
            IF Visible(st, n, op.k) THEN No(st)
            ELSE Ok(AddItem(st, n, op.k, op.v, op.m), <<>>)
      [] op.op = "addgen" ->
            IF \E i \in 1..Len(op.keys) : Visible(st, n, op.keys[i]) THEN No(st)
            ELSE LET s1 == AddAll(st, n, op.keys, op.ms, 1)
                 IN Ok([s1 EXCEPT !.nodes[n].gens = Append(@, [keys |-> op.keys, gid |-> op.gid, mode |-> op.mode])], <<>>)
      [] op.op = "gen" ->
            LET r == RunGen(st, n, op.k) IN [st |-> r.st, ok |-> r.ok, v |-> IF r.ok THEN <<r.v>> ELSE <<>>]
      [] op.op = "has" -> Ok(st, <<IF Visible(st, n, op.k) THEN "T" ELSE "F">>)
      [] op.op \in {"keys", "iter", "star"} -> Ok(st, Keys(st, n))
      [] op.op = "len" -> Ok(st, <<ToString(Len(Keys(st, n)))>>)
      [] op.op = "update" ->
            Ok([st EXCEPT !.nodes[n] = MergeStores(nd, st.nodes[op.o], op.pri)], <<>>)
      [] op.op = "link" ->
            LET d == [src |-> op.o, f |-> op.f, inp |-> op.inp, outp |-> op.outp, ref |-> op.ref]
                i == LinkAt(nd, op.f)
            IN Ok(IF i = 0 THEN [st EXCEPT !.nodes[n].ders = Append(@, d)]
                  ELSE [st EXCEPT !.nodes[n].ders[i] = d], <<>>)

(* --- the properties, as predicates of one state ----------------------------*)
Saved(nd, k) == GetOr(nd.items[k].meta, "save", "T") # "F"

\* C01: a stored (or user-set) value is returned as it is, without recomputation;
\* computing once makes every saved sibling stored.
LazyOnce(st) == \A n \in 1..Len(st.nodes) : \A k \in SeqSet(st.nodes[n].own) :
    LET nd == st.nodes[n]
        r == Get(st, n, k)
    IN /\ nd.items[k].data # "None" => r.st = st
       /\ (r.ok /\ Saved(nd, k)) => Get(r.st, n, k) = r
       /\ (r.ok /\ ~Saved(nd, k) /\ nd.items[k].data = "None" /\ GenOf(nd, k) # 0)
             => Get(r.st, n, k).v # r.v
       /\ (r.ok /\ nd.items[k].data = "None" /\ GenOf(nd, k) # 0)
             => LET g == nd.gens[GenOf(nd, k)] IN
                /\ r.st.runs[g.gid] = GetOr(st.runs, g.gid, 0) + 1
                /\ \A s \in SeqSet(g.keys) : Saved(nd, s) => r.st.nodes[n].items[s].data # "None"
       /\ ~r.ok => r.st.nodes = st.nodes

\* C02: names are unique among own items, every generator's names are items
NamesOk(st) == \A n \in 1..Len(st.nodes) :
    LET nd == st.nodes[n] IN
    /\ ~HasDup(nd.own) /\ SeqSet(nd.own) = DOMAIN nd.items
    /\ \A i \in 1..Len(nd.gens) : SeqSet(nd.gens[i].keys) \subseteq DOMAIN nd.items
    /\ \A k \in SeqSet(Keys(st, n)) :
          LET r == Step(st, [op |-> "add", n |-> n, k |-> k, v |-> "x", m |-> Empty])
          IN ~r.ok /\ r.st = st

\* C03: what is visible through a link is exactly what matches, valued f(source)
LinksOk(st) == \A n \in 1..Len(st.nodes) : \A k \in SeqSet(Keys(st, n)) :
    k \notin SeqSet(st.nodes[n].own) =>
        LET i == FirstLink(st, n, {}, k)
            d == st.nodes[n].ders[i]
            g == Get(st, n, k)
            s == Get(st, d.src, k)
        IN /\ i # 0 /\ Visible(st, d.src, k)
           /\ \A a \in DOMAIN d.inp : MetaV(st, d.src, {}, k, a) = d.inp[a]
           /\ \A a \in DOMAIN d.outp : MetaV(st, n, {}, k, a) = d.outp[a]
           /\ (d.ref # "T" /\ "data" \notin DOMAIN d.outp /\ s.ok) => g.ok /\ g.v = d.f \o "(" \o s.v \o ")"
           /\ st.nodes[d.src].grp # st.nodes[n].grp
=============================================================================
