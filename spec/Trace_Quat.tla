------------------------------ MODULE Trace_Quat ------------------------------
(* Judges recorded quaternion operations (C14, C15).  p, q are integer inputs;    *)
(* the real code gets them normalised, its results come back times their norms    *)
(* (and thousand).                                                                *)
EXTENDS Quat, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, l
no(name, b) == IF b THEN {} ELSE {name}
K == 1000
All3(m) == \A i \in 1..3 : Len(m[i]) = 3
NearMat(a, b, eps) == Len(a) = 3 /\ \A i \in 1..3 : NearSeq(a[i], b[i], eps)
\* one symmetric element of the list for each group element, up to sign
Match(S, list, eps) == /\ Len(list) = Cardinality(S)
    /\ \A s \in S : Cardinality({i \in DOMAIN list : NearUpTo(list[i], s, eps)}) = 1
Equivs(sym, q) == {[i \in 1..4 |-> LET r == Mul(s, q) IN r[i]] : s \in SymF(sym)}     \* times 10000
\* |axis| = t with cos(t/2) = w/n ; ax: unit axis, ch: cos of half its length
Bad(e) ==
    CASE e.op = "new" -> no("construct", IF e.south THEN NearSeq(e.r, Times(K, e.p), 1) ELSE NearNorth(e.r, Times(K, e.p), 1))
      [] e.op = "mul" -> no("product", IF e.south THEN NearSeq(e.r, Times(K, Mul(e.p, e.q)), 1)
                                       ELSE NearNorth(e.r, Times(K, Mul(e.p, e.q)), 1))
      [] e.op = "unchanged" -> no("operands-changed", e.r)
      [] e.op = "conj" -> no("conjugate", NearNorth(e.r, Times(K, Conj(e.p)), 1))
      [] e.op = "rot" -> no("rotation-matrix", NearMat(e.r, [i \in 1..3 |-> Times(K, RotN(e.p)[i])], 2))
      [] e.op = "vec" -> no("transform-vector", NearSeq(e.r, Times(K, MatVec(RotN(e.p), e.v)), 5))
      [] e.op = "back" -> no("conjugate-undoes", NearSeq(e.r, Times(K, e.v), 2))
      [] e.op = "dot" -> no("dot", Near(e.r, K * Dot(e.p, e.q), 1))
      [] e.op = "norm" -> no("norm", Near(e.r, Norm2(e.p) * K, 2) /\ Near(e.unit, K, 1) /\ NearSeq(e.n, Times(K, e.p), 1))
      [] e.op = "add" -> no("sum", NearNorth(e.r, [i \in 1..4 |-> K * (e.p[i] + e.q[i])], 1))
      [] e.op = "iadd" -> no("sum-in-place", NearSeq(e.r, [i \in 1..4 |-> K * (e.p[i] + e.q[i])], 1))
      [] e.op = "axis" -> no("axis-angle", NearNorth(e.r, Times(K, e.p), 2))
      [] e.op = "coordaxis" -> no("axis-angle", NearUpTo(e.r, AxisF(e.a, e.t), 3))
      [] e.op = "euler" -> no("euler-angles", NearUpTo(e.r, EulerF(e.e), 4)) \cup no("euler-hemisphere", e.r[1] >= 0)
      [] e.op = "toeuler" -> no("euler-round-trip", NearUpTo(e.r, Times(K, e.p), 3))
                             \cup no("euler-range", e.ang[1] \in 0..360000 /\ e.ang[2] \in 0..180000 /\ e.ang[3] \in 0..360000)
      [] e.op = "eulerstable" -> no("euler-angles-wrong", \A i \in 1..3 : Near(e.ang[i], e.e[i] * 1000, 2)
                                       \/ (i # 2 /\ Near(360000 - Abs(e.ang[i] - e.e[i] * 1000), 0, 2)))
      [] e.op = "many" -> no("create-many", e.shape = e.rshape /\ Len(e.r) = Len(e.e)
                             /\ \A i \in DOMAIN e.e : NearUpTo(e.r[i], EulerF(e.e[i]), 4) /\ e.r[i][1] >= 0)
      [] e.op = "mulmany" -> no("multiply-many", Len(e.r) = Len(e.ps)
                             /\ \A i \in DOMAIN e.ps : NearNorth(e.r[i], Times(K, Mul(e.ps[i], e.q)), 1))
      [] e.op = "extract" -> no("extract-components", e.shape = <<4>> \o e.inshape /\ Len(e.r) = Len(e.ps)
                             /\ \A i \in DOMAIN e.ps : NearSeq(e.r[i], Times(K, e.ps[i]), 1))
      [] e.op = "eq" -> no("equality", e.r = (e.p = e.q) /\ (e.r => e.hash))
      [] e.op = "refuse" -> no("bad-input-accepted", ~e.ok)
      \* ---- symmetry (C15)
      [] e.op = "group" -> no("symmetry-operators", Match(SymF(e.sym), e.r, 2))
      [] e.op = "unknown" -> no("unknown-symmetry-not-identity", e.r = << <<10000, 0, 0, 0>> >>)
      [] e.op = "eqvs" -> no("equivalents", Len(e.r) = Len(e.ps) /\ \A i \in DOMAIN e.ps :
                              Match(Equivs(e.sym, e.ps[i]), e.r[i], 40))
      [] e.op = "mis" -> no("misorientation", e.val >= DisLo(e.sym, e.p, e.q) - 2 /\ e.val <= DisHi(e.sym, e.p, e.q) + 2)
                         \cup no("misorientation-forms", e.same)
                         \cup no("equivalent-not-one", \E x \in Equivs(e.sym, e.q) : NearUpTo(e.eq, x, 40))
                         \cup no("equivalent-not-closest", Near(e.att, e.val, 2))
      [] e.op = "same" -> no("misorientation-above-one", e.over <= 0 /\ ~e.nan) \cup no("misorientation-with-itself", e.val >= 999999)
      [] e.op = "misz" -> no("misorientation-angle", Near(e.deg, K * ZDis(e.sym, e.a, e.b), 20))
      [] e.op = "calcmis" -> no("misorientation-array", Len(e.val) = Len(e.ps) /\ Len(e.eq) = Len(e.ps) /\ \A i \in DOMAIN e.ps :
                              e.val[i] >= DisLo(e.sym, e.ps[i], e.q) - 2 /\ e.val[i] <= DisHi(e.sym, e.ps[i], e.q) + 2
                              /\ Near(e.att[i], e.val[i], 2)
                              /\ \E x \in Equivs(e.sym, e.ps[i]) : NearUpTo(e.eq[i], x, 40))
      [] e.op = "misaxis" -> LET d == Mul(e.q, Conj(e.p)) IN     \* half: cos(length/2), vec: unit axis * sin(length/2)
                             no("misorientation-axis", NearNorth(<<e.half, e.vec[1], e.vec[2], e.vec[3]>>, Times(K, d), 3))
TraceInit == c \in 1..Len(Cases) /\ l = 0
TraceNext == l = 0 /\ l' = 1 /\ c' = c
             /\ LET b == Bad(Cases[c]) IN b # {} => PrintT("FAIL " \o ToJson([case |-> c, l |-> 1, bad |-> b]))
TraceSpec == TraceInit /\ [][TraceNext]_<<c, l>>
=============================================================================
