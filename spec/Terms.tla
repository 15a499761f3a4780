------------------------------- MODULE Terms -------------------------------
(* What is integrated:  dy = sum of  f_k(t, y, p) dx_k(t).                    *)
(* A term pairs a vector field with a control: time itself ("ode"), a path     *)
(* with a matrix ("mat") or a diagonal ("diag") of coefficients, or several     *)
(* such terms added up ("multi", nested). Vector fields are polynomials in time, *)
(* two state coordinates and one parameter; paths are given at the integers.     *)
(* The state machine takes explicit Euler steps from tick to tick, in either     *)
(* direction of time, everything in integers, and carries a covector along.      *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC, Json

CONSTANTS Leaves, Shapes(_), Paths, States, Params, Starts, Dirs, NSteps

VARIABLES term, path, dir, p, t, y, first, log

vars == <<term, path, dir, p, t, y, first, log>>
Two == {1, 2}
Sum(S, f(_)) == FoldSet(LAMBDA i, acc : acc + f(i), 0, S)
RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)

\* polynomials: sequences of monomials c * y1^e1 * y2^e2 * t^et * p^ep
Mono(m, s, z, q) == m.c * Pow(z[1], m.y[1]) * Pow(z[2], m.y[2]) * Pow(s, m.t) * Pow(q, m.p)
Val(P, s, z, q) == Sum(1..Len(P), LAMBDA i : Mono(P[i], s, z, q))
Low(k) == IF k > 0 THEN k - 1 ELSE 0
DY(P, j) == [i \in 1..Len(P) |-> [P[i] EXCEPT !.c = P[i].c * P[i].y[j], !.y[j] = Low(P[i].y[j])]]
DP(P) == [i \in 1..Len(P) |-> [P[i] EXCEPT !.c = P[i].c * P[i].p, !.p = Low(P[i].p)]]

\* what a term adds to coordinate i over [s0, s1]; with the vector field (or a derivative of it, D) at s0
Leaf(l, D(_), i, s0, s1, z, q) ==
  CASE l.kind = "ode"  -> Val(D(l.f[i]), s0, z, q) * (s1 - s0)
    [] l.kind = "diag" -> Val(D(l.f[i]), s0, z, q) * (path[s1][i] - path[s0][i])
    [] l.kind = "mat"  -> Sum(Two, LAMBDA j : Val(D(l.f[i][j]), s0, z, q) * (path[s1][j] - path[s0][j]))
RECURSIVE Inc(_, _, _, _, _, _, _)
Inc(tm, D(_), i, s0, s1, z, q) ==
  IF tm.kind = "multi" THEN Sum(1..Len(tm.of), LAMBDA k : Inc(tm.of[k], D, i, s0, s1, z, q))
  ELSE Leaf(tm, D, i, s0, s1, z, q)
Same(P) == P
Step(tm, s0, s1, z, q) == [i \in Two |-> z[i] + Inc(tm, Same, i, s0, s1, z, q)]
\* the covector obeys the adjoint equation, with respect to state and parameter
Adj(tm, s0, s1, z, q, a) == [j \in Two |-> -Sum(Two, LAMBDA i : a[i] * Inc(tm, LAMBDA P : DY(P, j), i, s0, s1, z, q))]
AdjP(tm, s0, s1, z, q, a) == -Sum(Two, LAMBDA i : a[i] * Inc(tm, DP, i, s0, s1, z, q))

Covector == <<2, -1>>
\* the solver's clock always runs forwards; the term is asked about the real time
Real(s) == dir * s
Init == /\ term \in UNION {Shapes(l) : l \in Leaves \X Leaves} /\ path \in Paths /\ dir \in Dirs /\ p \in Params
        /\ t \in Starts /\ y \in States /\ first = <<t, y>> /\ log = <<>>
Next == /\ Len(log) < NSteps
        /\ LET s0 == Real(t)  s1 == Real(t + 1) IN
           /\ y' = Step(term, s0, s1, y, p)
           /\ log' = Append(log, [t |-> s1, y |-> y', da |-> Adj(term, s0, s1, y, p, Covector), dp |-> AdjP(term, s0, s1, y, p, Covector)])
        /\ t' = t + 1 /\ UNCHANGED <<term, path, dir, p, first>>
Spec == Init /\ [][Next]_vars

\* --- laws ---
RECURSIVE Flat(_)
Flat(tm) == IF tm.kind # "multi" THEN <<tm>> ELSE IF tm.of = <<>> THEN <<>>
            ELSE Flat(tm.of[1]) \o Flat([tm EXCEPT !.of = Tail(tm.of)])
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
\* adding up is associative and commutative
Grouping == LET s0 == Real(t)  s1 == Real(t + 1) IN
  \A i \in Two : Inc(term, Same, i, s0, s1, y, p) = Inc([kind |-> "multi", of |-> Rev(Flat(term))], Same, i, s0, s1, y, p)
\* bilinear in the control: over adjoining stretches (with the vector field frozen) increments add up
Additive == \A i \in Two : LET F(a, b) == Sum(1..Len(Flat(term)), LAMBDA k :
                             LET l == Flat(term)[k] IN
                             CASE l.kind = "ode" -> Val(l.f[i], 0, y, p) * (b - a)
                               [] l.kind = "diag" -> Val(l.f[i], 0, y, p) * (path[b][i] - path[a][i])
                               [] l.kind = "mat" -> Sum(Two, LAMBDA j : Val(l.f[i][j], 0, y, p) * (path[b][j] - path[a][j])))
            IN F(-2, 1) = F(-2, 0) + F(0, 1) /\ F(-1, 2) = -F(2, -1)
\* a diagonal is a matrix
Zero == <<>>
AsMat(l) == IF l.kind = "diag" THEN [kind |-> "mat", f |-> [i \in Two |-> [j \in Two |-> IF i = j THEN l.f[i] ELSE Zero]]] ELSE l
Diagonal == LET s0 == Real(t)  s1 == Real(t + 1) IN
  \A k \in 1..Len(Flat(term)) : \A i \in Two : Inc(Flat(term)[k], Same, i, s0, s1, y, p) = Inc(AsMat(Flat(term)[k]), Same, i, s0, s1, y, p)
\* the adjoint is the transpose of the linearisation (checked against differences for the multilinear part)
Pairing == LET s0 == Real(t)  s1 == Real(t + 1) a == Covector IN
  \A d \in {<<1, 0>>, <<0, 1>>, <<1, -2>>} :
    Sum(Two, LAMBDA j : Adj(term, s0, s1, y, p, a)[j] * d[j])
      = -Sum(Two, LAMBDA i : a[i] * (Sum(Two, LAMBDA j : d[j] * Inc(term, LAMBDA P : DY(P, j), i, s0, s1, y, p))))
Emit == Len(log) = NSteps => PrintT("BEHAVIOUR " \o ToJson(
   [term |-> term, path |-> [k \in 1..9 |-> path[k - 5]], dir |-> dir, p |-> p, t0 |-> Real(first[1]), y0 |-> first[2], a |-> Covector, log |-> log]))
=============================================================================
