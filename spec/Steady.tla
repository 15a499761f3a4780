------------------------------- MODULE Steady -------------------------------
(* A solve that stops once the equation stands still: norm(f) < atol + rtol * norm(y) at   *)
(* the start or the end of an attempt. Tolerances and norm are those given, or else the controller's.      *)
(* The equation: y' = g(t) (goal - y), g zero in a window of time and one elsewhere, followed  *)
(* by Euler steps of a quarter, half or whole unit of time; time in quarters.                   *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json

CONSTANTS Moves,       \* quarters per step; 0: rejected
          Starts,      \* distance from the goal, two components
          Goals, Windows, Rtols, Atols, Length, Kinds

VARIABLES cfg, t, d, log, state
vars == <<cfg, t, d, log, state>>

Abs(x) == IF x < 0 THEN -x ELSE x
Norm(which, v) == IF which = "max" THEN (IF Abs(v[1]) > Abs(v[2]) THEN Abs(v[1]) ELSE Abs(v[2])) ELSE Abs(v[1]) + Abs(v[2])
\* what the controller has, where it has anything
Own == [rtol |-> 2, atol |-> 500, norm |-> "sum"]
Refusable == cfg.kind = "constant" /\ (cfg.rtol = "own" \/ cfg.atol = "own" \/ cfg.norm = "own")
Rtol == IF cfg.rtol = "own" THEN Own.rtol ELSE cfg.r
Atol == IF cfg.atol = "own" THEN Own.atol ELSE cfg.a
TheNorm == IF cfg.norm = "own" THEN Own.norm ELSE "max"

G(s) == IF cfg.window[1] <= s /\ s < cfg.window[2] THEN 0 ELSE 1
Y(e) == <<cfg.goal[1] - e[1], cfg.goal[2] - e[2]>>
Still(s, e) == 16 * G(s) * Norm(TheNorm, e) < 16 * Atol + Rtol * Norm(TheNorm, Y(e))

Init == /\ cfg \in [kind : Kinds, rtol : {"own", "given"}, atol : {"own", "given"}, norm : {"own", "given"}, r : Rtols, a : Atols,
                    goal : Goals, window : Windows, start : Starts]
        /\ (cfg.rtol = "own" => cfg.r = 0) /\ (cfg.atol = "own" => cfg.a = 0)
        /\ t = 0 /\ d = cfg.start /\ log = <<>> /\ state = IF Refusable THEN "refused" ELSE IF Still(0, d) THEN "still" ELSE "going"
Attempt ==
  /\ state = "going" /\ t < Length
  /\ \E m \in Moves :
       /\ (IF cfg.kind = "constant" THEN m # 0 /\ (IF log = <<>> THEN TRUE ELSE m = log[1]) ELSE TRUE)
       /\ t + m <= Length
       \* the attempt after a rejected one does not reach the end
       /\ (IF log = <<>> THEN TRUE ELSE Last(log) = 0 => t + m < Length)
       /\ (m = 0 => Cardinality({i \in DOMAIN log : log[i] = 0}) < 2)
       /\ LET e == [i \in {1, 2} |-> (d[i] * (4 - G(t) * m)) \div 4]
          IN /\ d' = e /\ t' = t + m
             /\ log' = Append(log, m)
             /\ state' = IF Still(t + m, e) THEN "still" ELSE "going"
  /\ UNCHANGED cfg
End == state = "going" /\ t = Length /\ state' = "end" /\ UNCHANGED <<cfg, t, d, log>>
Spec == Init /\ [][Attempt \/ End]_vars

Exact == \A i \in {1, 2} : d[i] % 4 = 0 \/ t >= 6 \/ state # "going"
First == state = "going" => ~Still(t, d)
StopsStill == state = "still" => Still(t, d)
NeverLate == state = "end" => ~Still(t, d)
Emit == (state # "going") => PrintT("BEHAVIOUR " \o ToJson([cfg |-> cfg, log |-> log, t |-> t, y |-> Y(d), state |-> state]))
=============================================================================
