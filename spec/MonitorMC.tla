------------------------------ MODULE MonitorMC -----------------------------
(***************************************************************************)
(* The monitor as a mechanism (C24): a stack of open events, the finished  *)
(* ones, the current usage and the time of the last point; a change of the *)
(* usage is logged as two points if the granularity G has passed, and      *)
(* overwrites the last point otherwise.  Ending an event hands the time on *)
(* to the enclosing one.  The clock may stand still between steps.         *)
(* Invariants: the record is well-nested and time-ordered; with G = 0      *)
(* (log everything) the peak is the largest usage there was.               *)
(***************************************************************************)
EXTENDS Monitor, TLC
CONSTANTS G, MaxT, MaxE, MaxR, Deltas, Gen, K
VARIABLES on, now, stack, done, cur, last, seen, n, r, left, hist
vars == <<on, now, stack, done, cur, last, seen, n, r, left, hist>>
Init == /\ on = FALSE /\ now = 0 /\ stack = <<>> /\ done = <<>> /\ cur = 0 /\ last = 0 /\ seen = {0}
        /\ n = 0 /\ r = 0 /\ left = 0 /\ hist = <<>>
Rec(o) == hist' = IF Gen THEN Append(hist, o) ELSE hist
Top == stack[Len(stack)]
Rest == SubSeq(stack, 1, Len(stack) - 1)
\* time passes by one unit, or not, before each step
Step(t) == t \in {now, now + 1} /\ t <= MaxT /\ now' = t
Start(t) == ~on /\ (Gen \/ left > 0 \/ done = <<>>) /\ Step(t) /\ on' = TRUE /\ done' = <<>> /\ cur' = 0 /\ last' = t /\ seen' = {0}
            /\ stack' = <<[name |-> 0, a |-> <<<<t, 0>>>>]>> /\ n' = 0 /\ UNCHANGED <<r, left>>
Begin(t) == on /\ n < MaxE /\ Step(t) /\ n' = n + 1
            /\ stack' = Append(stack, [name |-> n + 1, a |-> <<<<t, cur>>>>])
            /\ UNCHANGED <<on, done, cur, last, seen, r, left>>
End(t) == on /\ Len(stack) > 1 /\ Step(t)
          /\ done' = Append(done, [Top EXCEPT !.a = Append(@, <<t, cur>>)])
          /\ LET m == Len(stack) - 1 a == stack[m].a IN stack' = [Rest EXCEPT ![m].a = Append(a, <<t, a[Len(a)][2]>>)]
          /\ UNCHANGED <<on, cur, last, seen, n, r, left>>
Change(d, t) == on /\ r < MaxR /\ Step(t) /\ r' = r + 1
             /\ cur' = cur + d /\ seen' = seen \cup {cur + d}
             /\ LET m == Len(stack) a == Top.a IN
                (IF last + G <= t THEN stack' = [stack EXCEPT ![m].a = a \o <<<<t, cur>>, <<t, cur + d>>>>] /\ last' = t
                ELSE stack' = [stack EXCEPT ![m].a = [a EXCEPT ![Len(a)] = <<t, cur + d>>]] /\ UNCHANGED last)
             /\ UNCHANGED <<on, done, n, left>>
Stop(t) == on /\ (Gen \/ left = 0) /\ Step(t) /\ on' = FALSE /\ stack' = <<>>
        /\ done' = done \o [i \in 1 .. Len(stack) |-> stack[Len(stack) + 1 - i]]
        /\ left' = left + Len(stack) - 1 /\ UNCHANGED <<cur, last, seen, n, r>>
\* an event that was open when the monitor stopped ends later: it is in the record already
EndLate(t) == left > 0 /\ Step(t) /\ left' = left - 1 /\ UNCHANGED <<on, stack, done, cur, last, seen, n, r>>
Next == /\ ~Gen \/ Len(hist) < K
        /\ \E t \in {now, now + 1} :
           LET dt == t - now IN
           \/ Start(t) /\ Rec(<<1, 0, dt>>)
           \/ Begin(t) /\ Rec(<<2, 0, dt>>)
           \/ End(t) /\ Rec(<<3, 0, dt>>)
           \/ \E d \in Deltas : Change(d - 1000, t) /\ Rec(<<4, d, dt>>)
           \/ EndLate(t) /\ Rec(<<6, 0, dt>>)
           \/ (~Gen \/ Len(hist) >= K - 1 \/ Len(hist) % 8 = 7) /\ Stop(t) /\ Rec(<<5, 0, dt>>)
Spec == Init /\ [][Next]_vars
Done == [i \in 1 .. Len(done) |-> done[i].a]
Open == [i \in 1 .. Len(stack) |-> stack[i].a]
TimeOrdered == \A i \in 1 .. Len(Done \o Open) : Ordered((Done \o Open)[i])
WellNested == Nested(Done) /\ (~Gen => Nested(Open))
RealUsages == \A i \in 1 .. Len(Done) : Usages(Done[i]) \subseteq seen
PeakReached == ~on /\ G = 0 /\ done # <<>> => PeakOf(Done) = MaxOf(seen)
Emit == ~Gen \/ Len(hist) < K \/ PrintT("GEN " \o ToString(hist))
=============================================================================
