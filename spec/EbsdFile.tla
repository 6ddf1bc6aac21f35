------------------------------- MODULE EbsdFile -------------------------------
(* The EBSD map that each supported file stands for (C19, C20, C30).  Lengths    *)
(* and angles of lattices in thousandths of an angstrom or degree, pixels in     *)
(* raster order counted from 1.                                                  *)
EXTENDS Integers, Sequences, FiniteSets
(* ---- phases ---- *)
KnownPhase(p) == p.laue \in {9, 11}
Sym(laue) == IF laue = 9 THEN "hexagonal" ELSE "cubic"
Slip(laue, sg) == IF laue = 9 THEN "HCP" ELSE IF sg = 225 THEN "FCC" ELSE IF sg = 229 THEN "BCC" ELSE "none"
PhaseOf(p) == [name |-> p.name, laue |-> p.laue, lp |-> p.lp, sym |-> Sym(p.laue), ss |-> Slip(p.laue, p.sg)]
Phases(ps) == [i \in DOMAIN ps |-> PhaseOf(ps[i])]
(* ---- text files of Oxford: named columns ---- *)
CtfCols == {"Phase", "X", "Y", "Bands", "Error", "Euler1", "Euler2", "Euler3", "MAD", "BC", "BS"}
CtfNeed == {"Phase", "Euler1", "Euler2", "Euler3", "MAD", "BC", "BS"}
Ran(s) == {s[i] : i \in DOMAIN s}
ColAt(cols, n) == CHOOSE i \in DOMAIN cols : cols[i] = n
Column(f, n) == [k \in DOMAIN f.rows |-> f.rows[k][ColAt(f.cols, n)]]
CtfGood(f) == /\ CtfNeed \subseteq Ran(f.cols) /\ Ran(f.cols) \subseteq CtfCols
              /\ Len(f.rows) = f.w * f.h /\ \A i \in DOMAIN f.phases : KnownPhase(f.phases[i])
CtfBad(f) == Ran(f.cols) \ CtfCols # {} \/ Len(f.rows) # f.w * f.h \/ \E i \in DOMAIN f.phases : ~KnownPhase(f.phases[i])
CtfMap(f) == [shape |-> <<f.h, f.w>>, step |-> f.step, phases |-> Phases(f.phases), ph |-> Column(f, "Phase"),
              eul |-> <<Column(f, "Euler1"), Column(f, "Euler2"), Column(f, "Euler3")>>,
              bc |-> Column(f, "BC"), bs |-> Column(f, "BS"), mad |-> Column(f, "MAD")]
(* ---- binary files of Oxford: records of bytes ---- *)
Bytes == {7, 8, 10, 11}                  \* fields of one byte; all others, known or not, are 4 byte floats
Width(id) == IF id \in Bytes THEN 1 ELSE 4
RECURSIVE OffsetOf(_, _)
OffsetOf(fs, k) == IF k = 1 THEN 1 ELSE OffsetOf(fs, k - 1) + Width(fs[k - 1])       \* the phase comes first, in one byte
RecLen(fs) == OffsetOf(fs, Len(fs) + 1)
Pow2(n) == 2 ^ n
\* 1024 times the value of a little endian float (which must be a whole number then)
FloatOf(b) == LET mant == b[1] + 256 * b[2] + 65536 * (b[3] % 128)
                  ex == (b[4] % 128) * 2 + b[3] \div 128
                  m1 == mant + 8388608
                  sh == ex - 140
                  v == IF ex = 0 THEN 0 ELSE IF sh >= 0 THEN m1 * Pow2(sh) ELSE IF sh < -30 THEN 0 ELSE m1 \div Pow2(-sh)
              IN IF b[4] >= 128 THEN -v ELSE v
FieldAt(fs, bytes, px, k) ==             \* value of the k-th field of a pixel
    LET o == (px - 1) * RecLen(fs) + OffsetOf(fs, k) IN
    IF Width(fs[k]) = 1 THEN bytes[o + 1] ELSE FloatOf(SubSeq(bytes, o + 1, o + 4))
ById(fs, bytes, n, id) == LET k == CHOOSE i \in DOMAIN fs : fs[i] = id IN [px \in 1..n |-> FieldAt(fs, bytes, px, k)]
CrcNeed == {3, 4, 5, 6, 7, 8}
CrcGood(f) == /\ CrcNeed \subseteq Ran(f.fields) /\ Len(f.bytes) = f.w * f.h * RecLen(f.fields)
              /\ \A i \in DOMAIN f.phases : KnownPhase(f.phases[i])
CrcBad(f) == \/ Len(f.bytes) < f.w * f.h * RecLen(f.fields) \/ Len(f.bytes) >= (f.w * f.h + 1) * RecLen(f.fields)
             \/ \E i \in DOMAIN f.phases : ~KnownPhase(f.phases[i])
Edx(f) == {i \in 1..f.nedx : 100 + i \in Ran(f.fields)}
CrcMap(f) == LET n == f.w * f.h  by(id) == ById(f.fields, f.bytes, n, id) IN
    [shape |-> <<f.h, f.w>>, step |-> f.step, phases |-> Phases(f.phases),
     ph |-> [px \in 1..n |-> f.bytes[(px - 1) * RecLen(f.fields) + 1]], eul |-> <<by(3), by(4), by(5)>>,
     bc |-> by(7), bs |-> by(8), mad |-> by(6), edx |-> [i \in 1..f.nedx |-> IF i \in Edx(f) THEN by(100 + i) ELSE <<>>]]
(* ---- text files of EDAX: fixed columns; Euler angles in ten thousandths of a radian ---- *)
AngLaue(s) == IF s \in {"43", "m3m"} THEN 11 ELSE IF s = "6/mmm" THEN 9 ELSE 0
AngPhase(p) == [name |-> p.name, laue |-> AngLaue(p.sym), sg |-> IF AngLaue(p.sym) = 11 THEN 229 ELSE 0, lp |-> p.lp]
AngPhases(f) == [i \in DOMAIN f.phases |-> AngPhase(f.phases[i])]
InOrder(f) == \A i \in DOMAIN f.phases : f.phases[i].no = i
AngOk(f) == f.grid = "SqrGrid" /\ InOrder(f) /\ (\A i \in DOMAIN f.phases : AngLaue(f.phases[i].sym) # 0) /\ Len(f.rows) = f.w * f.h
Turn == 62832
Quarter4 == 15708
AngCol(f, k) == [i \in DOMAIN f.rows |-> f.rows[i][k]]
AngMap(f) == [shape |-> <<f.h, f.w>>, step |-> f.step, phases |-> Phases(AngPhases(f)), ph |-> [i \in DOMAIN f.rows |-> f.rows[i][8] + 1],
              eul |-> <<[i \in DOMAIN f.rows |-> IF f.rows[i][1] < Quarter4 THEN f.rows[i][1] - Quarter4 + Turn ELSE f.rows[i][1] - Quarter4],
                        AngCol(f, 2), AngCol(f, 3)>>,
              iq |-> AngCol(f, 6), ci |-> AngCol(f, 7), fit |-> AngCol(f, 10)]
(* ---- what a saved and loaded map keeps ---- *)
Kept(m) == [m EXCEPT !.bs = [i \in DOMAIN m.bs |-> 0], !.mad = [i \in DOMAIN m.mad |-> 0], !.hasbs = TRUE]
\* an EBSD map turned by half a turn: pixels reversed, sample turned
Rev(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
Half(m) == [m EXCEPT !.ph = Rev(@), !.bc = Rev(@), !.bs = Rev(@),
                     !.eul = [i \in DOMAIN @ |-> LET e == @[Len(@) + 1 - i] IN <<e[1] + 180, e[2], e[3]>>]]
(* ---- a session of saving and loading: maps in memory, files by name ---- *)
NewSession == [maps |-> <<>>, disk |-> <<>>]
Has(s, name) == \E i \in DOMAIN s.disk : s.disk[i].name = name
FileOf(s, name) == LET i == CHOOSE i \in DOMAIN s.disk : s.disk[i].name = name IN s.disk[i].map
StepF(s, e) ==
    CASE e.op = "dict" -> [st |-> [s EXCEPT !.maps = Append(@, e.map)], ok |-> TRUE]
      [] e.op = "save" -> IF Has(s, e.name) THEN [st |-> s, ok |-> FALSE]
                          ELSE [st |-> [s EXCEPT !.disk = Append(@, [name |-> e.name, map |-> Kept(s.maps[e.m])])], ok |-> TRUE]
      [] e.op = "baddict" -> [st |-> s, ok |-> FALSE]       \* arrays that do not fit together
      [] e.op = "badsave" -> [st |-> s, ok |-> FALSE]
      [] e.op = "load" -> IF Has(s, e.name) THEN [st |-> [s EXCEPT !.maps = Append(@, FileOf(s, e.name))], ok |-> TRUE]
                          ELSE [st |-> s, ok |-> FALSE]
      [] e.op = "turn" -> [st |-> [s EXCEPT !.maps[e.m] = Half(@)], ok |-> TRUE]
      [] e.op = "edit" -> [st |-> [s EXCEPT !.maps[e.m].ph = [@ EXCEPT ![e.k] = e.v], !.maps[e.m].bc = [@ EXCEPT ![e.k] = e.b]], ok |-> TRUE]
      [] e.op = "read" -> [st |-> s, ok |-> TRUE]
=============================================================================
