---------------------------- MODULE Trace_EbsdFile ----------------------------
(* Judges the maps loaded from files with known contents.                        *)
EXTENDS EbsdFile, Quat, Json, IOUtils, TLC
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, l
no(name, b) == IF b THEN {} ELSE {name}
NearAll(a, b, eps) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Near(a[i], b[i], eps)
Meta(e, m) == no("shape", e.got.shape = m.shape /\ e.got.dims = m.shape) \cup no("step-size", e.got.step = m.step)
    \cup no("number-of-phases", Len(e.got.phases) = Len(m.phases))
    \cup (IF Len(e.got.phases) # Len(m.phases) THEN {} ELSE UNION {
          no("phase-name", e.got.phases[i].name = m.phases[i].name) \cup no("phase-symmetry", e.got.phases[i].sym = m.phases[i].sym /\ e.got.phases[i].laue = m.phases[i].laue)
          \cup no("lattice", NearAll(e.got.phases[i].lp, m.phases[i].lp, 0)) \cup no("slip-systems", e.got.phases[i].ss = m.phases[i].ss) : i \in DOMAIN m.phases})
Common(e, m) == Meta(e, m) \cup no("phase-of-pixel", e.got.ph = m.ph)
Oxford(e, m) == Common(e, m) \cup no("band-contrast", e.got.bc = m.bc) \cup no("band-slope", e.got.bs = m.bs)
Circ(a, b, turn, eps) == LET d == (a - b) % turn IN d <= eps \/ turn - d <= eps
Bad(e) ==
    CASE e.op = "ctf" -> no("good-file-refused", CtfGood(e) => e.ok) \cup no("bad-file-accepted", CtfBad(e) => ~e.ok)
             \cup (IF ~e.ok \/ ~CtfGood(e) THEN {} ELSE LET m == CtfMap(e) IN
                   Oxford(e, m) \cup no("mean-angular-deviation", NearAll(e.got.mad, m.mad, 0))
                   \cup no("euler-angles", \A a \in 1..3 : NearAll(e.got.eul[a], m.eul[a], 1))
                   \cup no("acquisition", NearUpTo(e.got.acq, EulerF(e.acq), 4)))
      [] e.op = "crc" -> no("good-file-refused", CrcGood(e) => e.ok) \cup no("bad-file-accepted", CrcBad(e) => ~e.ok)
             \cup (IF ~e.ok \/ ~CrcGood(e) THEN {} ELSE LET m == CrcMap(e) IN
                   Oxford(e, m) \cup no("mean-angular-deviation", e.got.mad = m.mad)
                   \cup no("euler-angles", e.got.eul = m.eul)
                   \cup no("edx", \A i \in Edx(e) : e.got.edx[i] = m.edx[i])
                   \cup no("acquisition", NearUpTo(e.got.acq, EulerF(e.acq), 4)))
      [] e.op = "ang" -> no(IF e.ok THEN "bad-file-accepted" ELSE "good-file-refused", e.ok = AngOk(e))
             \cup (IF ~e.ok \/ ~AngOk(e) THEN {} ELSE LET m == AngMap(e) IN
                   Common(e, m) \cup no("image-quality", e.got.iq = m.iq) \cup no("confidence-index", e.got.ci = m.ci) \cup no("fit", e.got.fit = m.fit)
                   \cup no("euler-angles", (\A i \in DOMAIN m.ph : Circ(e.got.eul[1][i], m.eul[1][i], Turn, 2))
                                           /\ NearAll(e.got.eul[2], m.eul[2], 1) /\ NearAll(e.got.eul[3], m.eul[3], 1))
                   \cup no("euler-range", \A i \in DOMAIN m.ph : e.got.eul[1][i] \in 0..Turn))
      [] e.op = "type" -> no("file-type", e.ok = e.known) \cup no("loader", e.ok => e.got = e.want)
TraceInit == c \in 1..Len(Cases) /\ l = 0
TraceNext == l = 0 /\ l' = 1 /\ c' = c
             /\ LET b == Bad(Cases[c]) IN b # {} => PrintT("FAIL " \o ToJson([case |-> c, l |-> 1, bad |-> b]))
TraceSpec == TraceInit /\ [][TraceNext]_<<c, l>>
=============================================================================
