-------------------------------- MODULE Clip --------------------------------
(* Step clipping: forced step times, declared discontinuities and revisiting *)
(* of rejected times, around an arbitrary adaptive controller, inside the    *)
(* solve loop.                                                              *)
(*                                                                          *)
(* Time is measured in units in the last place: tick k+1 is the floating     *)
(* point number after tick k. The solve runs from tick 0 to tick T1.         *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC, Json, SequencesExt

CONSTANTS T1, Dt0s, Dts, MaxSteps,
          StepChoices,   \* sequences of forced times (Absent: option not used)
          JumpChoices,   \* sequences of discontinuities
          StoreChoices,  \* how many consecutive rejections can be remembered; 0: option not used
          Absent

VARIABLES cfg, tp, tn, mj, rej, res, att, script

vars == <<cfg, tp, tn, mj, rej, res, att, script>>

Floor == T1 - 100     \* 100 ulp before the end counts as the end
Inf == 1000000000

Elems(s) == IF s = Absent THEN {} ELSE {s[i] : i \in 1..Len(s)}
After(S, t) == LET later == {x \in S : x > t} IN IF later = {} THEN Inf ELSE Min(later)
Mn(a, b) == IF a < b THEN a ELSE b
Mx(a, b) == IF a > b THEN a ELSE b

\* move off a marked time: its tick and the one before lead to the one after
Bump(t, S) == IF t \in S THEN t + 1 ELSE IF (t + 1) \in S THEN t + 2 ELSE t
Near(t, S) == t \in S \/ (t + 1) \in S

\* midpoint, rounding half to even (tick 0 is an even significand)
Half(a, b) == LET d == b - a IN
  IF d % 2 = 0 THEN a + d \div 2
  ELSE LET lo == a + d \div 2 IN IF lo % 2 = 0 THEN lo ELSE lo + 1

\* the first attempt is cut at the end; later proposals within 100 ulp of it go there (or half way, after
\* a rejection)
ToEnd(a, b, keep) == IF b > Floor THEN (IF keep THEN T1 ELSE Half(a, T1)) ELSE b

Init ==
  /\ \E s \in StepChoices, j \in JumpChoices, n \in StoreChoices, d \in Dt0s :
       /\ cfg = [step |-> s, jump |-> j, store |-> n, dt0 |-> d]
       /\ tn = Mn(T1, Mn(Mn(d, After(Elems(s), 0)), After(Elems(j), 0) - 1))
  /\ tp = 0 /\ mj = FALSE /\ rej = <<>> /\ res = "successful" /\ att = <<>> /\ script = <<>>

Running == tp < T1 /\ res = "successful" /\ Len(att) < MaxSteps

Attempt(keep, dt) ==
  LET S == Elems(cfg.step)
      J == Elems(cfg.jump)
      a0 == IF keep THEN tn ELSE tp                \* what the inner controller returns
      b0 == a0 + dt
      b1 == Mn(b0, After(S, Bump(a0, S)))
      a2 == Bump(a0, J)
      b2 == IF cfg.jump = Absent THEN b1 ELSE Mn(Mx(a2 + 1, b1), After(J, a2) - 1)
      jumped == Near(a0, J)
      popped == IF rej # <<>> /\ Head(rej) = tn THEN Tail(rej) ELSE rej
      stack == IF keep THEN popped ELSE <<tn>> \o popped
      over == cfg.store > 0 /\ Len(stack) > cfg.store
      b3 == IF cfg.store > 0 /\ stack # <<>> THEN Mn(b2, Head(stack)) ELSE b2
      a4 == Mn(a2, T1)
  IN  /\ Running
      /\ keep \/ tn > tp      \* a step of length zero makes no error
      /\ script' = Append(script, [keep |-> keep, dt |-> dt])
      /\ att' = Append(att, [t0 |-> tp, t1 |-> tn, mj |-> mj, keep |-> keep])
      /\ tp' = a4
      /\ tn' = ToEnd(a4, b3, keep)
      /\ mj' = IF keep THEN jumped ELSE mj
      /\ rej' = IF cfg.store > 0 THEN stack ELSE <<>>
      /\ res' = IF over THEN "max_steps_rejected" ELSE res
      /\ UNCHANGED cfg

Next == \E keep \in BOOLEAN, dt \in Dts : Attempt(keep, dt)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

----------------------------------------------------------------------------
Final == ~Running
Outcome == IF res # "successful" THEN res ELSE IF tp < T1 THEN "max_steps_reached" ELSE "successful"
Acc == SelectSeq(att, LAMBDA a : a.keep)
Reached(t) == tp > t

S0 == Elems(cfg.step)
J0 == Elems(cfg.jump)

\* every forced time that has been passed was the end of an accepted step (unless it is at a discontinuity)
StepsHit == \A s \in S0 :
  (0 < s /\ s <= Floor /\ Reached(s) /\ ~(\E j \in J0 : j - 1 <= s /\ s <= j + 1)) =>
     \E i \in 1..Len(Acc) : Acc[i].t1 = s

\* no attempt evaluates a discontinuity strictly inside the interval ...
JumpsAvoided == \A j \in J0 : (1 < j /\ j <= Floor) =>
  \A i \in 1..Len(att) : ~(att[i].t0 <= j /\ j <= att[i].t1)
\* ... they are approached to the tick before, left from the tick after, and announced to the solver
JumpsTaken == \A j \in J0 : (1 < j /\ j <= Floor /\ Reached(j)) =>
  \E i \in 1..Len(Acc) : /\ Acc[i].t1 = j - 1
                         /\ (i < Len(Acc) => Acc[i + 1].t0 = j + 1 /\ Acc[i + 1].mj)
\* the announcement is made only then
NoFalseAlarm == \A i \in 1..Len(att) : att[i].mj => \E j \in J0 : att[i].t0 = j + 1

\* rejected times are revisited
Revisited == cfg.store > 0 /\ res = "successful" =>
  \A i \in 1..Len(att) :
    (~att[i].keep /\ tp > att[i].t1 /\ ~(\E j \in J0 : j - 1 <= att[i].t1 /\ att[i].t1 <= j + 1)) =>
     \E k \in 1..Len(Acc) : Acc[k].t1 = att[i].t1
\* ... in order: the remembered times are increasing and ahead of us
StackOrdered == \A i \in 1..Len(rej) : rej[i] >= tp /\ (i > 1 => rej[i - 1] <= rej[i])

\* accepted steps tile the interval, apart from the jumps
Tiles == \A i \in 1..Len(Acc) :
  /\ Acc[i].t0 <= Acc[i].t1 /\ Acc[i].t1 <= T1
  /\ i > 1 => Acc[i].t0 = Acc[i - 1].t1 \/ (Acc[i].mj /\ Acc[i].t0 = Acc[i - 1].t1 + 2)
             \/ (Acc[i].mj /\ Acc[i].t0 = Acc[i - 1].t1 + 1)

Emit == Final => PrintT("BEHAVIOUR " \o ToJson(
  [cfg |-> [step |-> IF cfg.step = Absent THEN <<>> ELSE cfg.step, jump |-> IF cfg.jump = Absent THEN <<>> ELSE cfg.jump,
            hasstep |-> cfg.step # Absent, hasjump |-> cfg.jump # Absent, store |-> cfg.store, dt0 |-> cfg.dt0],
   script |-> script, att |-> att, tp |-> tp, mj |-> mj, res |-> Outcome, t1 |-> T1, maxsteps |-> MaxSteps]))
Terminates == <>Final
============================================================================
