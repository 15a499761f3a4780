------------------------------- MODULE Memory -------------------------------
(* What a method remembers from one step to the next.                         *)
(*                                                                          *)
(* An attempt goes from the current tick to a later one; it is accepted or     *)
(* rejected, and an accepted step may end at a discontinuity of the vector     *)
(* field (after which another regime applies). A method may remember           *)
(*   "nothing"                                                              *)
(*   "slope"   the slope at the end of the last accepted step                 *)
(*   "previous" the time and state before the current one (two-step method)    *)
(*   "shadow"  a second, companion state and its slope                        *)
(* A slope is identified by where it was taken: tick, state (numbered by        *)
(* accepted steps), regime. The promise for memoryless methods and for "slope"  *)
(* is that the remembered slope is never visible: every attempt uses the slope  *)
(* at the attempt's own start in the attempt's own regime.                     *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Kinds, MaxAttempts, Dts, Ticks

VARIABLES kind, t, ver, regime, jumped, mem, log, boundaries

vars == <<kind, t, ver, regime, jumped, mem, log, boundaries>>

Slope(tick, v, r) == [t |-> tick, y |-> v, r |-> r]
Nothing == [t |-> -1, y |-> -1, r |-> -1]

Init == /\ kind \in Kinds
        /\ t = 0 /\ ver = 0 /\ regime = 0 /\ jumped = FALSE
        /\ log = <<>> /\ boundaries \in SUBSET Ticks
        \* the first step evaluates its own slope; a two-step method starts from itself
        /\ mem = IF kind = "slope" THEN Nothing ELSE IF kind = "previous" THEN Slope(0, 0, 0)
                 ELSE IF kind = "shadow" THEN Slope(0, 0, 0) ELSE Nothing

\* which slope an attempt starts with
Used == IF kind = "slope" /\ mem # Nothing /\ ~jumped THEN mem
        ELSE IF kind = "shadow" /\ ~jumped THEN mem
        ELSE Slope(t, ver, regime)

\* nobody steps across a discontinuity; a step that ends at one stops just short of it, and the next starts just after it
Attempt(dt, accept) ==
 LET atb == (t + dt) \in boundaries
     jump == accept /\ atb IN
  /\ Len(log) < MaxAttempts
  /\ \A b \in boundaries : ~(t < b /\ b < t + dt)
  /\ log' = Append(log, [from |-> t, to |-> t + dt, ver |-> ver, regime |-> regime, jumped |-> jumped,
                         slope |-> Used, accept |-> accept, jump |-> atb,
                         prev |-> IF kind = "previous" THEN mem.t ELSE t])
  /\ IF accept
     THEN /\ t' = t + dt /\ ver' = ver + 1
          /\ regime' = IF jump THEN regime + 1 ELSE regime
          /\ jumped' = jump
          \* remembered at the end of the step: still the old regime
          /\ mem' = IF kind \in {"slope", "shadow"} THEN Slope(t + dt, ver + 1, regime)
                    ELSE IF kind = "previous" THEN Slope(t, ver, regime) ELSE mem
     ELSE UNCHANGED <<t, ver, regime, jumped, mem>>
  /\ UNCHANGED <<kind, boundaries>>

Next == \E dt \in Dts, a \in BOOLEAN : Attempt(dt, a)
Spec == Init /\ [][Next]_vars

\* the promise, on every attempt
OwnSlope == \A i \in 1..Len(log) :
              LET a == log[i] IN a.slope = Slope(a.from, a.ver, a.regime)
\* the two-step method reaches back exactly one accepted step
OneBack == kind = "previous" =>
  \A i \in 1..Len(log) :
    LET acc == SelectSeq(SubSeq(log, 1, i - 1), LAMBDA a : a.accept) IN
      log[i].prev = IF acc = <<>> THEN 0 ELSE acc[Len(acc)].from
\* rejected attempts are forgotten entirely
Forget == \A i \in 1..Len(log) - 1 :
            ~log[i].accept => /\ log[i+1].from = log[i].from /\ log[i+1].ver = log[i].ver
                              /\ log[i+1].jumped = log[i].jumped /\ log[i+1].slope = log[i].slope
                              /\ log[i+1].regime = log[i].regime
Emit == (Len(log) = MaxAttempts /\ kind = "slope" /\ \A b \in boundaries : b <= t + 2) =>
          PrintT("BEHAVIOUR " \o ToJson([log |-> log, boundaries |-> boundaries]))
=============================================================================
