------------------------------ MODULE Brownian ------------------------------
(* A client querying one driving path. The path is fixed once and for all    *)
(* (here: any path that is linear between ticks); a query <<a, b>> returns   *)
(* its increment and Levy areas over [a, b]. Queries come in any order, may   *)
(* repeat, overlap and nest; the answers have to be those of one path.        *)
EXTENDS Levy, TLC, Json

CONSTANTS N,          \* ticks
          Values, MaxQueries

VARIABLES path, asked

vars == <<path, asked>>

Stretches == {<<a, b>> \in (0..N) \X (0..N) : a < b}
Answer(a, b) == LET p == Part(path, a, b) IN [a |-> a, b |-> b, W |-> Inc(p), I1 |-> I1x2(p), I2 |-> I2x12(p), SH |-> SH(p), SK |-> SK(p)]

Init == path \in {<<0>> \o p : p \in [1..N -> Values]} /\ asked = <<>>
Ask == /\ Len(asked) < MaxQueries
       /\ \E q \in Stretches : asked' = Append(asked, Answer(q[1], q[2]))
       /\ UNCHANGED path
Spec == Init /\ [][Ask]_vars

Qs == {asked[i] : i \in 1..Len(asked)}
\* the same question has the same answer
OnePath == \A x, y \in Qs : (x.a = y.a /\ x.b = y.b) => x = y
\* answers over consecutive stretches add up (W, int w, int int w)
Additive == \A x, y, z \in Qs : (x.b = y.a /\ z.a = x.a /\ z.b = y.b) =>
  /\ z.W = x.W + y.W
  /\ z.I1 = x.I1 + 2 * (y.b - y.a) * x.W + y.I1
  /\ z.I2 = x.I2 + 6 * (y.b - y.a) * x.I1 + 6 * (y.b - y.a) * (y.b - y.a) * x.W + y.I2
\* and the areas follow from them
Areas == \A x \in Qs : LET h == x.b - x.a IN x.SH = x.I1 - h * x.W /\ x.SK = x.I2 - 2 * h * h * x.W - 3 * h * x.SH

\* schedules worth replaying: at least one sum, or a repeated question
Interesting == \/ \E x, y, z \in Qs : x.b = y.a /\ z.a = x.a /\ z.b = y.b
               \/ \E i, j \in 1..Len(asked) : i < j /\ asked[i] = asked[j]
Emit == (Len(asked) = MaxQueries /\ Interesting) => PrintT("BEHAVIOUR " \o ToJson([q |-> [i \in 1..Len(asked) |-> <<asked[i].a, asked[i].b>>]]))
=============================================================================
