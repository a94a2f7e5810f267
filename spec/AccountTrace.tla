---------------------------- MODULE AccountTrace ----------------------------
(***************************************************************************)
(* C24.  Recorded sizes and structure trees: the size reported in bytes is *)
(* the number of bytes stored, the tree written in either format, to a     *)
(* stream or a file, is the same, accounts for its parts, and has that     *)
(* number at its root.                                                     *)
(* Recorded runs of the memory monitor: driver times (lo, hi) are          *)
(* milliseconds since before the run; the log's times count from the start *)
(* of the monitoring, which lies in the window of the start operation.     *)
(***************************************************************************)
EXTENDS TraceBase, SizeTree, Monitor
VARIABLES l, st
vars == <<l, st>>
E == Trace[l]
SizeOK ==
  /\ E.sib = E.len /\ E.ret = E.len /\ E.mb = E.len
  /\ Len(E.json) = 1 /\ E.json[1][3] = E.len /\ Sound(E.json[1])
  /\ E.html = E.json /\ E.fjson = E.json /\ E.fhtml = E.json
Sum(s) == LET f[i \in 0 .. Len(s)] == IF i = 0 THEN 0 ELSE f[i - 1] + s[i] IN f[Len(s)]
ManyOK ==
  /\ Len(E.json) = 1 /\ E.json[1][3] = Sum(E.lens) /\ Sound(E.json[1]) /\ SizesOf(E.json[1][4]) = Sum(E.lens)
  /\ E.html = E.json
\* open, done: sequences of [name, us (usages while open), b (window of its begin), f (window of its end, or <<>>)]
New == [on |-> FALSE, mode |-> 0, n |-> 0, cur |-> 0, open |-> <<>>, done |-> <<>>, seen |-> {0}, s |-> <<0, 0>>]
Win == <<E.lo, E.hi>>
Ev(nm) == [name |-> nm, us |-> {st.cur}, b |-> Win, f |-> <<>>]
Name(k) == "e" \o ToString(k)
Change(d) == LET c == st.cur + d IN
  [st EXCEPT !.cur = c, !.seen = @ \cup {c}, !.open = [i \in 1 .. Len(@) |-> [@[i] EXCEPT !.us = @ \cup {c}]]]
St2 ==
  CASE E.op = "run" -> [New EXCEPT !.mode = E.mode]
    [] E.op = "start" -> [New EXCEPT !.mode = st.mode, !.on = TRUE, !.open = <<[name |-> "unknown", us |-> {0}, b |-> Win, f |-> <<>>]>>, !.s = Win]
    [] E.op = "begin" -> IF st.on THEN [st EXCEPT !.n = @ + 1, !.open = Append(@, Ev(Name(st.n + 1)))] ELSE [st EXCEPT !.n = @ + 1]
    [] E.op = "end" -> LET m == Len(st.open) IN [st EXCEPT !.open = SubSeq(@, 1, m - 1), !.done = Append(@, [st.open[m] EXCEPT !.f = Win])]
    [] E.op = "change" -> IF st.on THEN Change(E.d) ELSE st
    [] E.op = "stop" -> [st EXCEPT !.on = FALSE, !.open = <<>>, !.done = @ \o st.open]
    [] OTHER -> st
Span == st.s[2] - st.s[1] + 1
After(t, w) == t >= w[1] - st.s[1] - Span        \* not before the window began
Before(t, w) == t <= w[2] - st.s[1] + 1          \* not after it ended
Log == E.json
A(i) == Log[i][2]
As == [i \in 1 .. Len(Log) |-> A(i)]
Of(nm) == CHOOSE i \in 1 .. Len(st.done) : st.done[i].name = nm
LogOK ==
  /\ Len(Log) = Len(st.done) /\ {Log[i][1] : i \in 1 .. Len(Log)} = {st.done[i].name : i \in 1 .. Len(st.done)}
  /\ \A i \in 1 .. Len(Log) : Ordered(A(i))
  /\ \A i \in 1 .. Len(Log) - 1 : First(A(i)) <= First(A(i + 1))
  /\ Nested(As)
  /\ \A i \in 1 .. Len(Log) : LET d == st.done[Of(Log[i][1])] IN
       /\ Usages(A(i)) \subseteq d.us
       /\ After(First(A(i)), d.b)
       \* a change within the granularity moves the last point, which may be the first
       /\ st.mode = 0 => Before(First(A(i)), d.b)
       /\ d.f # <<>> => After(Last(A(i)), d.f) /\ Before(Last(A(i)), d.f)
  /\ E.peak >= PeakOf(As) /\ E.peak \in st.seen \cup {0}
  /\ st.mode = 0 /\ E.when = "stop" => E.peak = MaxOf(st.seen)
  /\ E.html = Log
OK == CASE E.op \in {"job", "kind", "run", "start", "begin", "change", "stop", "late"} -> TRUE
        [] E.op = "size" -> SizeOK
        [] E.op = "many" -> ManyOK
        [] E.op = "end" -> st.on
        [] E.op = "log" -> LogOK
        \* changes recorded by several threads: none is lost
        [] E.op = "threads" -> E.last = E.total /\ E.peak = E.total
        [] OTHER -> FALSE
Init == l = 1 /\ st = New /\ ResetRegisters
Next == l <= Len(Trace) /\ Judge(l, OK) /\ st' = St2 /\ l' = l + 1
Spec == Init /\ [][Next]_vars
=============================================================================
