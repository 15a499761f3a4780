------------------------------- MODULE Stages -------------------------------
(* Implicit methods: what happens when a stage equation cannot be solved.      *)
(*                                                                          *)
(* A step from one tick to another solves one equation per implicit stage.      *)
(* World: some stage equations have no solution -- the last stage of a step      *)
(* depends on where the step ends, an inner one on where and how far it goes.    *)
(* That is discovered (chosen) when first met, and never changes.               *)
(* With step size adaptation a step with an unsolvable stage is rejected and     *)
(* leaves no trace; without, the solve stops there and says so.                 *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS End, Dts, MaxAttempts

VARIABLES adaptive, t, badEnd, goodEnd, badIn, goodIn, log, outcome

vars == <<adaptive, t, badEnd, goodEnd, badIn, goodIn, log, outcome>>

Init == /\ adaptive \in BOOLEAN
        /\ t = 0 /\ badEnd = {} /\ goodEnd = {0} /\ badIn = {} /\ goodIn = {}
        /\ log = <<>> /\ outcome = "running"

Rejected == Len(log) > 0 /\ ~log[Len(log)].keep
\* a step that would reach the end ends there; if it is another attempt, half way there
Reach(dt) == IF t + dt < End THEN t + dt ELSE IF Rejected THEN (t + End) \div 2 ELSE End

Attempt(dt, inner, last) ==
  LET to == Reach(dt)
      seg == <<t, to>>
      ok == ~inner /\ ~last
      keep == ok \/ ~adaptive
  IN
  /\ outcome = "running"
  /\ (t + dt >= End /\ Rejected) => (t + End) % 2 = 0
  /\ Len(log) < MaxAttempts
  /\ inner => seg \notin goodIn
  /\ ~inner => seg \notin badIn
  /\ last => to \notin goodEnd
  /\ ~last => to \notin badEnd
  /\ badIn' = IF inner THEN badIn \cup {seg} ELSE badIn
  /\ goodIn' = IF inner THEN goodIn ELSE goodIn \cup {seg}
  /\ badEnd' = IF last THEN badEnd \cup {to} ELSE badEnd
  /\ goodEnd' = IF last THEN goodEnd ELSE goodEnd \cup {to}
  /\ log' = Append(log, [from |-> t, to |-> to, inner |-> inner, last |-> last, keep |-> keep])
  /\ t' = IF keep THEN to ELSE t
  /\ outcome' = IF keep /\ ~ok THEN "unsolved"
                ELSE IF keep /\ to = End THEN "done"
                ELSE IF Len(log) + 1 = MaxAttempts THEN "budget" ELSE "running"
  /\ UNCHANGED adaptive

Next == \E dt \in Dts, inner, last \in BOOLEAN : Attempt(dt, inner, last)
Spec == Init /\ [][Next]_vars

\* an accepted step of an adaptive solve had all its stages solved
OnlySolved == adaptive => \A i \in 1..Len(log) : log[i].keep => ~log[i].inner /\ ~log[i].last
\* an unsolved stage is only ever reported when it was kept, and then it is the end
Truth == (outcome = "unsolved") <=> (\E i \in 1..Len(log) : log[i].keep /\ (log[i].inner \/ log[i].last))
NoAdaptiveFailure == adaptive => outcome # "unsolved"
\* rejected attempts do not move
Tiled == \A i \in 1..Len(log) - 1 : log[i + 1].from = IF log[i].keep THEN log[i].to ELSE log[i].from
Emit == outcome # "running" =>
  PrintT("BEHAVIOUR " \o ToJson([adaptive |-> adaptive, log |-> log, outcome |-> outcome]))
=============================================================================
