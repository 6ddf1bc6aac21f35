------------------------------ MODULE Trace_Rotate ------------------------------
(* Judges recorded histories of reading, setting and turning a map (C25).           *)
EXTENDS Ori, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, l, f, st
Start(r) == [ph |-> r.ph, bc |-> r.bc, bs |-> r.bs, eul |-> r.eul, mad |-> r.mad, vec |-> r.vec, lst |-> r.ph,
             ori |-> IF r.mode = "q" THEN [i \in DOMAIN r.img |-> UnitF(r.img[i])]
                     ELSE [i \in DOMAIN r.eul |-> EulerF(r.eul[i])]]
Step(s, e) == IF e.op = "rotate" THEN [ph |-> Rev(s.ph), bc |-> Rev(s.bc), bs |-> Rev(s.bs), eul |-> Rev(s.eul), ori |-> Turn(s.ori),
                                      mad |-> Rev(s.mad), vec |-> Rev(s.vec), lst |-> s.lst]
              ELSE IF e.op = "setori" THEN [s EXCEPT !.ori = [i \in DOMAIN e.img |-> UnitF(e.img[i])]]
              ELSE s
EvBad(s, e) ==
    CASE e.op = "read" /\ e.what \in {"ph", "bc", "bs", "eul", "mad", "vec", "lst"} -> IF e.r = s[e.what] THEN {} ELSE {"wrong-" \o e.what}
      [] e.op = "read" -> IF Len(e.r) = Len(s.ori) /\ \A i \in DOMAIN s.ori : NearUpTo(e.r[i], s.ori[i], 9)
                          THEN {} ELSE {"wrong-orientation"}
      [] e.op = "rotate" -> IF e.ok THEN {} ELSE {"refused-rotation"}
      [] OTHER -> {}
TraceInit == c \in 1..Len(Cases) /\ l = 0 /\ f = 0 /\ st = Start(Cases[c])
TraceNext == /\ l < Len(Cases[c].ev) /\ l' = l + 1 /\ c' = c
             /\ LET e == Cases[c].ev[l + 1]
                    s2 == Step(st, e)
                    b == EvBad(s2, e)
                IN /\ st' = s2
                   /\ f' = IF f = 0 /\ b # {} THEN l + 1 ELSE f
                   /\ (f = 0 /\ b # {}) => PrintT("FAIL " \o ToJson([case |-> c, l |-> l + 1, bad |-> b]))
TraceSpec == TraceInit /\ [][TraceNext]_<<c, l, f, st>>
=============================================================================
