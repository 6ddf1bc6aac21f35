--------------------------------- MODULE Book ---------------------------------
(* Experiments, increments, maps and frames (C13).  Experiment 1 is the          *)
(* anonymous one.  incs: [exp, meta, maps: sequence of <<name, map>>];            *)
(* maps: [inc, frame]; exps: sequences of increments.                            *)
EXTENDS Integers, Sequences, FiniteSets
NewBook(n) == [exps |-> [i \in 1..n |-> <<>>], incs |-> <<>>, maps |-> <<>>, pts |-> <<>>]
AddInc(s, e, meta) == [s EXCEPT !.incs = Append(@, [exp |-> e, meta |-> meta, maps |-> <<>>]), !.exps[e] = Append(@, Len(s.incs) + 1)]
Put(ms, name, m) == IF \E i \in DOMAIN ms : ms[i][1] = name
                    THEN [i \in DOMAIN ms |-> IF ms[i][1] = name THEN <<name, m>> ELSE ms[i]]
                    ELSE Append(ms, <<name, m>>)
Default(kind) == kind
\* e.exp, e.inc, e.frame: 0 if not given; e.frame = k: the frame of map k; -1: a new frame given
AddMap(s, e) ==
    LET s1 == IF e.inc # 0 THEN s ELSE AddInc(s, IF e.exp = 0 THEN 1 ELSE e.exp, 0)
        inc == IF e.inc # 0 THEN e.inc ELSE Len(s1.incs)
        id == Len(s.maps) + 1
        fr == IF e.frame > 0 THEN s.maps[e.frame].frame ELSE Len(s.pts) + 1
    IN [s1 EXCEPT !.incs[inc].maps = Put(@, IF e.name = "" THEN Default(e.kind) ELSE e.name, id),
                  !.maps = Append(@, [inc |-> inc, frame |-> fr]),
                  !.pts = IF e.frame > 0 THEN @ ELSE Append(@, <<>>)]
Contradict(s, e) == e.inc # 0 /\ e.exp # 0 /\ s.incs[e.inc].exp # e.exp
Named(s, i, name) == {k \in DOMAIN s.incs[i].maps : s.incs[i].maps[k][1] = name}
RECURSIVE IterFrom(_, _, _, _)
IterFrom(s, e, name, k) ==
    IF k > Len(s.exps[e]) THEN <<>>
    ELSE LET i == s.exps[e][k]  h == Named(s, i, name)
         IN (IF h = {} THEN <<>> ELSE << <<k - 1, s.incs[i].maps[CHOOSE q \in h : TRUE][2]>> >>) \o IterFrom(s, e, name, k + 1)
Iter(s, e, name) == IterFrom(s, e, name, 1)
StepB(s, e) ==
    CASE e.op = "inc" -> [st |-> AddInc(s, e.exp, e.meta), ok |-> TRUE, res |-> <<>>]
      [] e.op = "map" -> IF Contradict(s, e) THEN [st |-> s, ok |-> FALSE, res |-> <<>>] ELSE [st |-> AddMap(s, e), ok |-> TRUE, res |-> <<>>]
      [] e.op = "attach" -> [st |-> [s EXCEPT !.incs[e.inc].maps = Put(@, e.name, e.m)], ok |-> TRUE, res |-> <<>>]
      [] e.op = "iter" -> [st |-> s, ok |-> TRUE, res |-> Iter(s, e.exp, e.name)]
      [] e.op = "get" -> LET n == Len(s.exps[e.exp])  k == IF e.k < 0 THEN n + e.k + 1 ELSE e.k + 1 IN
                         IF k < 1 \/ k > n THEN [st |-> s, ok |-> FALSE, res |-> <<>>] ELSE [st |-> s, ok |-> TRUE, res |-> <<s.exps[e.exp][k]>>]
      [] e.op = "pts" -> [st |-> [s EXCEPT !.pts[s.maps[e.m].frame] = e.pts], ok |-> TRUE, res |-> <<>>]
      [] e.op = "addpt" -> [st |-> [s EXCEPT !.pts[s.maps[e.m].frame] = [i \in DOMAIN @ |-> <<@[i][1] + e.d, @[i][2]>>]], ok |-> TRUE, res |-> <<>>]
=============================================================================
