------------------------------ MODULE Trace_Dic ------------------------------
(* Judges recorded strain fields (C22) and loaded DIC files (C21).             *)
EXTENDS Strain, DicFile, Json, IOUtils, TLC
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, l
no(name, b) == IF b THEN {} ELSE {name}
Px(e) == {<<x, y>> : x \in 0..(e.w - 1), y \in 0..(e.h - 1)}
K(e, z) == z[2] * e.w + z[1] + 1
Bad(e) ==
    CASE e.op = "strain" ->
            no("gradient-shape", e.fshape = <<2, 2, e.h, e.w>> /\ e.eshape = <<2, 2, e.h, e.w>> /\ e.mshape = <<e.h, e.w>>)
            \cup no("deformation-gradient", \A z \in Px(e) : LET f == FAt(e, z[1], z[2]) IN \A i, j \in 1..2 : e.f[i][j][K(e, z)] = 64 * f[i][j])
            \cup no("green-strain", \A z \in Px(e) : LET g == EAt(e, z[1], z[2]) IN \A i, j \in 1..2 : e.e[i][j][K(e, z)] = 8 * g[i][j])
            \cup no("effective-shear", \A z \in Px(e) : e.m[K(e, z)] = MAt(e, z[1], z[2]))
      [] e.op = "file" ->
            no("good-file-refused", Good(e) => e.ok) \cup no("inconsistent-file-accepted", Wrong(e) => ~e.ok)
            \cup (IF ~e.ok \/ e.disordered THEN {}
                  ELSE LET m == MapOf(e) IN no("shape", e.shape = m.shape /\ e.dims = m.shape) \cup no("binning", e.rb2 = m.b2)
                       \cup no("coordinate", e.x = m.x /\ e.y = m.y) \cup no("displacement", e.u = m.u /\ e.v = m.v))
      [] e.op = "type" -> no("unknown-format", e.ok = e.known)
      [] e.op = "corr" -> no("correlation-size", e.ok = (e.cw = e.w /\ e.ch = e.h)) \cup no("correlation-values", e.ok => e.r = e.v)
TraceInit == c \in 1..Len(Cases) /\ l = 0
TraceNext == l = 0 /\ l' = 1 /\ c' = c
             /\ LET b == Bad(Cases[c]) IN b # {} => PrintT("FAIL " \o ToJson([case |-> c, l |-> 1, bad |-> b]))
TraceSpec == TraceInit /\ [][TraceNext]_<<c, l>>
=============================================================================
