------------------------------ MODULE InitStep ------------------------------
(* Automatic choice of the first step (Hairer, Norsett, Wanner II.4).         *)
(* d0, d1, d2: norms of the state, of its first and (estimated) second        *)
(* derivative, relative to the tolerance. All are powers of two (or zero).    *)
(* Lengths are c * log2(1/100) + u on a log2 scale, in 60ths; the pair <<c, u>> *)
(* is compared through log2(100) = 6.6438... Tiny (10^-6) has c = 3.          *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS D0s, D1s, D2s, Orders, Zero
VARIABLES in, out
vars == <<in, out>>

U == 60
L100 == 39863   \* 100 * 60 * log2(100)
Val(x) == 100 * x.u - x.c * L100
Mn(a, b) == IF Val(a) <= Val(b) THEN a ELSE b
Mx(a, b) == IF Val(a) >= Val(b) THEN a ELSE b
Ln(c, u) == [c |-> c, u |-> u]
Tiny(n) == n = Zero \/ n < -16          \* below 10^-5
Nil(n) == n = Zero \/ n < -49           \* below 10^-15
Pow(n) == Ln(0, U * n)

\* probing step: a hundredth of the time the state needs to change by itself
H0(d0, d1) == IF Tiny(d0) \/ Tiny(d1) THEN Ln(3, 0) ELSE Ln(1, U * (d0 - d1))
Big(d1, d2) == IF d1 = Zero THEN d2 ELSE IF d2 = Zero THEN d1 ELSE IF d1 > d2 THEN d1 ELSE d2
\* Without any derivative the probing step is tiny: 10^-6. Otherwise the step is such that the leading
\* error term is a hundredth of the tolerance.
Choose(d0, d1, d2, k) ==
  LET h0 == H0(d0, d1)
      cap == Ln(h0.c - 1, h0.u)         \* a hundred times the probing step
  IN  IF Nil(Big(d1, d2)) THEN Mn(cap, Ln(3, 0))
      ELSE LET u == Ln(1, -U * Big(d1, d2))     \* k times the logarithm of the step
           IN  IF Val(cap) * k <= Val(u) THEN cap ELSE [c |-> 1, u |-> u.u, root |-> k]

Init == /\ \E d0 \in D0s, d1 \in D1s, d2 \in D2s, k \in Orders : in = [d0 |-> d0, d1 |-> d1, d2 |-> d2, k |-> k]
        /\ out = Choose(in.d0, in.d1, in.d2, in.k)
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

Root(x) == IF "root" \in DOMAIN x THEN x.root ELSE 1
\* never further than a hundred probing steps; never a step at which the error estimate is large
Careful == Val(out) <= Root(out) * Val(Ln(H0(in.d0, in.d1).c - 1, H0(in.d0, in.d1).u))
Emit == PrintT("BEHAVIOUR " \o ToJson([in |-> in, c |-> out.c, u |-> out.u, root |-> Root(out)]))
=============================================================================
