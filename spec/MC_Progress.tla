----------------------------- MODULE MC_Progress -----------------------------
EXTENDS Progress, Json, TLC, FiniteSets
CONSTANTS MaxSteps, Gen
VARIABLES s, n, hist, out, hi
vars == <<s, n, hist, out, hi>>
\* hi: for the computation at the bottom, the greatest fraction reported; out: everything printed
Do(e) == /\ n < MaxSteps /\ CanP(s, e) /\ s' = StepP(s, e).st /\ n' = n + 1
         /\ hist' = (IF Gen THEN Append(hist, e) ELSE hist)
         /\ out' = (IF Gen THEN out ELSE out \o StepP(s, e).out)
         /\ hi' = (IF e.op = "report" /\ Len(s.stack) = 1 THEN (IF e.v > hi THEN e.v ELSE hi) ELSE IF e.op = "call" /\ Len(s.stack) = 0 THEN 0 ELSE hi)
Names == IF Gen THEN {"a", "b", ""} ELSE {"a", "b"}
Depth == IF Gen THEN 4 ELSE 2
Fracs == IF Gen THEN {0, 5, 10, 11, 12, 20, 22, 100, 256, 300, 512, 700, 1000, 1013, 1014, 1024, 1500, -300} ELSE {0, 10, 11, 21, 22, 1024}
Call == \E m \in Names : Len(s.stack) < Depth /\ \E g \in {TRUE, Len(s.stack) = 0} : Do([op |-> "call", m |-> m, v |-> n + 1, guard |-> g])
Enter == Do([op |-> "enter", v |-> s.args])
Report == \E v \in Fracs : Do([op |-> "report", v |-> v])
Say == \E m \in {"x", "y"} : Do([op |-> "say", m |-> m])
Keep == Do([op |-> "keep", v |-> n])
Return == Do([op |-> "return", v |-> n])
Raise == (Gen => n % 3 = 0) /\ Do([op |-> "raise", v |-> n])
Got == Do([op |-> "got", what |-> s.got[1], v |-> s.got[2], kept |-> s.kept])
Init == s = NewReporter /\ n = 0 /\ hist = <<>> /\ out = <<>> /\ hi = 0
Next == Call \/ Enter \/ Report \/ Say \/ Keep \/ Return \/ Raise \/ Got
Spec == Init /\ [][Next]_vars
Count(k) == Cardinality({i \in DOMAIN out : out[i].k = k})
\* every computation can be ended: the bottom one is always caught
InvBottom == Len(s.stack) > 0 => s.stack[1].guard
InvStart == Count("start") >= Len(s.stack)
InvFinal == Count("final") + Len(s.stack) <= Count("start")
\* between two percentages of one run the fraction rose by more than a percent
InvRise == \A i \in DOMAIN s.stack : s.stack[i].prev = 0 \/ s.stack[i].prev >= OnePercent
InvReach == Len(s.stack) = 1 => hi - s.stack[1].prev < OnePercent
\* a message is the last thing printed by a computation that says so
InvMsg == (Len(s.stack) = 1 /\ s.stack[1].msg) => Count("said") > 0
InvWait == ~(s.got # Nothing /\ s.args # 0)
Stop == (Gen /\ n = MaxSteps) => PrintT("TRACE " \o ToJson(hist))
=============================================================================
