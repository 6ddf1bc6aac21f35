----------------------------- MODULE Trace_Kernel -----------------------------
(* Judges recorded filter results (C33) and Nye tensors (C34).                       *)
EXTENDS Kernel, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, l
no(name, b) == IF b THEN {} ELSE {name}
Px(e) == {<<x, y>> : x \in 0..e.w - 1, y \in 0..e.h - 1}
Ix(e, p) == p[2] * e.w + p[1] + 1
Bad(e) == LET U == TLCEval([i \in DOMAIN e.img |-> UnitF(e.img[i])]) IN
    CASE e.op = "filter" ->
            LET c0 == HalfTol(e.tol2) IN
            no("shape", e.shape = <<e.h, e.w>>) \cup no("unit", \A i \in DOMAIN e.r : (\A k \in 1..4 : Abs(e.r[i][k]) <= 10001) /\ Near(Norm2(e.r[i]) \div 10000, 10000, 6))
            \cup UNION {IF ~Inner(e.w, e.h, p) THEN no("rim-changed", NearUpTo(e.r[Ix(e, p)], At(U, e.w, p), 2))
                        ELSE no("filtered", \/ Undecided(U, e.w, e.h, p, c0, 4)
                                            \/ \E f \in Filtered(U, e.w, e.h, p, c0, 60) : NearUpTo(e.r[Ix(e, p)], f, 14)) : p \in Px(e)}
      [] e.op = "nye" ->
            no("shape", e.shape = <<3, 3, e.h, e.w>> /\ e.gshape = <<e.h, e.w>>)
            \cup UNION {no("nye", \E a \in Nye(e.sym, U, e.w, e.h, p) : Near33(e.nye[Ix(e, p)], a, 16)) : p \in Px(e)}
            \cup UNION {LET s == (3 * L1(e.nye[Ix(e, p)])) \div 2 IN
                        no("gnd", Near(e.gnd[Ix(e, p)], s, 10) \/ (s < 12 /\ e.flat[Ix(e, p)])) : p \in Px(e)}
TraceInit == c \in 1..Len(Cases) /\ l = 0
TraceNext == l = 0 /\ l' = 1 /\ c' = c
             /\ LET b == Bad(Cases[c]) IN b # {} => PrintT("FAIL " \o ToJson([case |-> c, l |-> 1, bad |-> b]))
TraceSpec == TraceInit /\ [][TraceNext]_<<c, l>>
=============================================================================
