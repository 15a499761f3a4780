-------------------------------- MODULE Grid --------------------------------
(* Fixed step sizes. Unlike the other specifications this one is a          *)
(* recogniser: recorded solves (constant Recorded, written by the harness)   *)
(* are walked step by step, and every step has to be one the specification   *)
(* allows. Times are integers; a recorded time may be off by Slack.          *)
(*                                                                          *)
(*  "constant"  a step size d was asked for on [0, T]: there are ceil(T/d)   *)
(*              steps, none longer than d, and if d divides T they are       *)
(*              exactly d, 2d, 3d, ... with no accumulated error.            *)
(*  "free"      the same, but the end is unbounded: 1d, 2d, 3d, ...          *)
(*  "given"     steps are made to exactly the times in want.                 *)
EXTENDS Integers, Sequences, TLC

CONSTANTS Recorded, Slack
VARIABLES i, k, t

vars == <<i, k, t>>
R == Recorded[i]
Ceil(a, b) == (a + b - 1) \div b

Count == CASE R.kind = "constant" -> Ceil(R.T, R.d)
           [] R.kind = "free" -> Len(R.ts)
           [] R.kind = "given" -> Len(R.want)

Near(a, b) == a - b <= Slack /\ b - a <= Slack

\* is a step from time t to time u, as step number n, allowed?
Allowed(n, u) ==
  /\ u > t
  /\ CASE R.kind = "constant" ->
            /\ u - t <= R.d + 2 * Slack
            /\ n <= Count
            /\ (R.T % R.d = 0 => Near(u, n * R.d))
            /\ (n = Count => u = R.T)
       [] R.kind = "free" -> Near(u, n * R.d)
       [] R.kind = "given" -> u = R.want[n]

Init == i \in 1..Len(Recorded) /\ k = 0 /\ t = 0
Step == k < Len(R.ts) /\ Allowed(k + 1, R.ts[k + 1]) /\ k' = k + 1 /\ t' = R.ts[k + 1] /\ i' = i
Spec == Init /\ [][Step]_vars

\* a recorded solve that gets stuck before its last step was not allowed
Accepted == k < Len(R.ts) => Allowed(k + 1, R.ts[k + 1])
\* and it made all its steps
Complete == k = Len(R.ts) => k = Count
=============================================================================
