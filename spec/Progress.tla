------------------------------- MODULE Progress -------------------------------
(* Reporting the progress of a computation (C29).  Computations may start others  *)
(* (the same one too), so the running ones form a stack; fractions are in 1024ths.*)
(* Every event gives what is printed before the next event.                       *)
EXTENDS Integers, Sequences
OnePercent == 11                         \* the least number of 1024ths above one percent
Quiet == <<>>
Start(m) == [k |-> "start", m |-> m, n |-> 0]
Percent(m, k) == [k |-> "percent", m |-> m, n |-> (2 * 100 * k + 1024) \div 2048]
Said(s) == [k |-> "said", m |-> s, n |-> 0]
Final(m) == [k |-> "final", m |-> m, n |-> 0]
\* a running computation: name, last fraction printed, whether a message is the last thing printed, caller catches
Running(m, guard) == [m |-> m, prev |-> 0, msg |-> FALSE, guard |-> guard]
\* what the caller has just received: nothing, a value or an exception
Nothing == <<"none", 0>>
\* kept: what computations have done to the object they were given
NewReporter == [stack |-> <<>>, got |-> Nothing, args |-> 0, kept |-> <<>>]
Top(s) == s.stack[Len(s.stack)]
Pop(s) == SubSeq(s.stack, 1, Len(s.stack) - 1)
Upd(s, f) == [s EXCEPT !.stack[Len(s.stack)] = f]
CanP(s, e) ==
    CASE e.op = "call" -> s.got = Nothing /\ s.args = 0
      [] e.op = "enter" -> s.args # 0
      [] e.op = "got" -> s.got # Nothing
      [] OTHER -> s.got = Nothing /\ s.args = 0 /\ Len(s.stack) > 0
\* [st, out, ok]: ok says the event itself is as it must be
StepP(s, e) ==
    CASE e.op = "call" -> [st |-> [s EXCEPT !.stack = Append(@, Running(e.m, e.guard)), !.args = e.v], out |-> <<Start(e.m)>>, ok |-> TRUE]
      [] e.op = "enter" -> [st |-> [s EXCEPT !.args = 0], out |-> Quiet, ok |-> e.v = s.args]
      [] e.op = "report" -> LET f == Top(s) IN
            IF e.v - f.prev >= OnePercent THEN [st |-> Upd(s, [f EXCEPT !.prev = e.v, !.msg = FALSE]), out |-> <<Percent(f.m, e.v)>>, ok |-> TRUE]
            ELSE [st |-> s, out |-> Quiet, ok |-> TRUE]
      [] e.op = "say" -> [st |-> Upd(s, [Top(s) EXCEPT !.msg = TRUE]), out |-> <<Said(e.m)>>, ok |-> TRUE]
      [] e.op = "keep" -> [st |-> [s EXCEPT !.kept = Append(@, e.v)], out |-> Quiet, ok |-> TRUE]
      [] e.op = "return" -> [st |-> [s EXCEPT !.stack = Pop(s), !.got = <<"value", e.v>>], out |-> (IF Top(s).msg THEN Quiet ELSE <<Final(Top(s).m)>>), ok |-> TRUE]
      \* an exception ends the computation and, unless the caller catches it, the caller too
      [] e.op = "raise" -> LET up == {i \in DOMAIN s.stack : s.stack[i].guard}
                               k == CHOOSE i \in up : \A j \in up : j <= i
                           IN [st |-> [s EXCEPT !.stack = SubSeq(@, 1, k - 1), !.got = <<"exception", e.v>>], out |-> Quiet, ok |-> TRUE]
      [] e.op = "got" -> [st |-> [s EXCEPT !.got = Nothing], out |-> Quiet, ok |-> <<e.what, e.v>> = s.got /\ e.kept = s.kept]
=============================================================================
