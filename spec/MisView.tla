------------------------------ MODULE MisView ------------------------------
(* What is shown of the spread within grains.  Each grain remembers its reference, *)
(* and the reference its last list of angles and its last list of rotations were   *)
(* taken from; views make the lists they need and otherwise show the last ones.    *)
EXTENDS Ori
Start(n) == [ref |-> [g \in 1..n |-> <<>>], ang |-> [g \in 1..n |-> <<>>], ax |-> [g \in 1..n |-> <<>>]]
\* mean: per grain the mean orientation, used where no reference is known
Calc(st, S, axis, mean) ==
    LET r == [g \in DOMAIN st.ref |-> IF g \in S /\ st.ref[g] = <<>> THEN mean[g] ELSE st.ref[g]]
    IN [ref |-> r, ang |-> [g \in DOMAIN r |-> IF g \in S THEN r[g] ELSE st.ang[g]],
        ax |-> [g \in DOMAIN r |-> IF axis /\ g \in S THEN r[g] ELSE st.ax[g]]]
Have(st, comp) == IF comp = 0 THEN st.ang ELSE st.ax
Step(st, o, mean) ==
    LET All == DOMAIN st.ref IN
    CASE o.op = "set" -> [st EXCEPT !.ref[o.g] = o.q]
      [] o.op = "avg" -> [st EXCEPT !.ref = mean]
      [] o.op = "calc" -> Calc(st, All, o.axis, mean)
      [] o.op = "build" -> Calc(st, {o.g}, o.axis, mean)
      [] o.op = "show" -> IF \E g \in All : Have(st, o.comp)[g] = <<>> THEN Calc(st, All, o.comp # 0, mean) ELSE st
      [] o.op = "showg" -> IF Have(st, o.comp)[o.g] = <<>> THEN Calc(st, {o.g}, o.comp # 0, mean) ELSE st
      [] o.op = "seg" -> st
\* what a pixel shows: the smallest angle, or a component of that rotation, in hundredths of degrees
HalfArc(v) == LET s == Min2(10000, Len3(<<v[2], v[3], v[4]>>))
              IN IF s <= 7071 THEN Asin(s) ELSE 9000 - Asin(Min2(10000, Abs(v[1])))
Turned(v) == LET n == North(v)
                 s == Max2(1, Len3(<<n[2], n[3], n[4]>>))
                 a == HalfArc(n)
             IN [k \in 1..3 |-> DivR(2 * a * n[k + 1], s)]
Rotations(sym, ref, q) == {MulF(x, Conj(ref)) : x \in Closest(sym, ref, q)}
ShowOk(sym, ref, q, comp, val, eps) ==
    IF comp = 0 THEN \E r \in Rotations(sym, ref, q) : Near(val, 2 * HalfArc(r), eps)
    ELSE \E r \in Rotations(sym, ref, q) : Near(val, Turned(r)[comp], eps)
         \/ (r[1] \in -60..60 /\ Near(val, Turned(Neg(r))[comp], eps))
=============================================================================
