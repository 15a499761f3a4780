-------------------------------- MODULE Levy --------------------------------
(* Increments and Levy areas of paths that are linear between the integers.  *)
(* A path is a sequence of integers starting with 0: w[i+1] is its value at  *)
(* time i; it lasts n = Len(w) - 1 units of time. Everything below is an     *)
(* integer; the scale is in the name:                                        *)
(*   W = Inc          H = SH / (2 n)            K = SK / (12 n^2)             *)
(* where, on a unit of time [0, n], with B(u) = w(u) - (u/n) W the bridge,    *)
(*   H = (1/n) int B du      K = (1/n^2) int B(u) (n/2 - u) du                *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt

Dur(w) == Len(w) - 1
Inc(w) == w[Len(w)] - w[1]
Sum(S, f(_)) == FoldSet(LAMBDA i, acc : acc + f(i), 0, S)

SH(w) == Sum(1..Dur(w), LAMBDA i : (w[i] - w[1]) + (w[i + 1] - w[1])) - Dur(w) * Inc(w)

SK(w) == LET n == Dur(w)
             piece(i) == 6 * (w[i] - w[1]) * (n - 2 * i + 1) + (w[i + 1] - w[i]) * (3 * (n - 2 * i + 2) - 4)
         IN  Sum(1..n, piece) + Inc(w) * n * n

\* Run a path backwards, run one after another, look at a stretch of it, stretch it in time, scale it.
Reverse(w) == [i \in 1..Len(w) |-> w[Len(w) + 1 - i] - w[Len(w)]]
Join(v, w) == [i \in 1..(Len(v) + Len(w) - 1) |-> IF i <= Len(v) THEN v[i] ELSE v[Len(v)] + w[i - Len(v) + 1]]
Part(w, a, b) == [i \in 1..(b - a + 1) |-> w[a + i] - w[a + 1]]
Refine(w) == [i \in 1..(2 * Len(w) - 1) |-> IF i % 2 = 1 THEN 2 * w[(i + 1) \div 2] ELSE w[i \div 2] + w[i \div 2 + 1]]

\* Solving backwards in time sees the reversed path: the increment changes sign, the area between path and
\* chord does not, and the next moment does again.
ReverseRule(w) == /\ Inc(Reverse(w)) = -Inc(w)
                  /\ SH(Reverse(w)) = SH(w)
                  /\ SK(Reverse(w)) = -SK(w)

\* Chen's relation for W and H over two consecutive stretches (h = h1 + h2):
\*   h (W/2 + H) = h1 (W1/2 + H1) + h2 (W1 + W2/2 + H2)
ChenRule(v, w) ==
  LET j == Join(v, w) IN
    /\ Inc(j) = Inc(v) + Inc(w)
    /\ Dur(j) * Inc(j) + SH(j) = (Dur(v) * Inc(v) + SH(v)) + Dur(w) * 2 * Inc(v) + (Dur(w) * Inc(w) + SH(w))
\* and for K: with J(u) = int_0^u w ds (twice iterated integral) the triple <<W, int w, int int w>> is additive;
\*   int_0^n (w(u))(n - u) du  =: I2,   I1 = int w,   I2 = n^2 (K + W/6 + H/2)
I1x2(w) == Dur(w) * Inc(w) + SH(w)
I2x12(w) == SK(w) + 2 * Dur(w) * Dur(w) * Inc(w) + 3 * Dur(w) * SH(w)
ChenK(v, w) ==
  LET j == Join(v, w) IN
    I2x12(j) = I2x12(v) + 6 * Dur(w) * I1x2(v) + 6 * Dur(w) * Dur(w) * Inc(v) + I2x12(w)

\* the areas do not depend on how finely the path is described
RefineRule(w) == /\ Inc(Refine(w)) = 2 * Inc(w)
                 /\ SH(Refine(w)) = 4 * SH(w)
                 /\ SK(Refine(w)) = 8 * SK(w)
=============================================================================
