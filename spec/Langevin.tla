------------------------------ MODULE Langevin ------------------------------
(* Underdamped Langevin motion in two coordinates,                            *)
(*     dx = v dt      dv = -gamma v dt - u f(x) dt + sigma dw                  *)
(* with sigma^2 = 2 gamma u, driven along a path that is linear between the    *)
(* integers; time runs forwards or backwards (dir). The scales of the problem  *)
(* are made explicit: one unit of time is eps^2, one unit of noise is eps, and *)
(* position and velocity are power series in eps, computed exactly: x[i][k+1]  *)
(* is the coefficient of eps^k ("weight" k) in coordinate i. A method of order  *)
(* p has to reproduce the weights up to 2p.                                     *)
(* The state machine picks a problem and extends the path stretch by stretch.   *)
EXTENDS Levy, Rationals, TLC, Json

CONSTANTS N,           \* largest weight
          Problems,    \* [gamma, u, sigma: per coordinate; f: per coordinate a set of <<coefficient, coordinates multiplied>>; x0, v0]
          Rates, Lengths, Dirs

VARIABLES prob, dir, path, x, v

vars == <<prob, dir, path, x, v>>
Two == {1, 2}

\* polynomials in the time since the start of the stretch
Co(p, i) == IF i \in 1..Len(p) THEN p[i] ELSE QI(0)
Larger(a, b) == IF a > b THEN a ELSE b
RECURSIVE QSum(_)
QSum(s) == IF s = <<>> THEN QI(0) ELSE QAdd(Head(s), QSum(Tail(s)))
RECURSIVE Trim(_)
Trim(p) == IF p # <<>> /\ p[Len(p)][1] = 0 THEN Trim(SubSeq(p, 1, Len(p) - 1)) ELSE p
PAdd(p, q) == IF p = <<>> THEN q ELSE IF q = <<>> THEN p
              ELSE Trim(TLCEval([i \in 1..Larger(Len(p), Len(q)) |-> QAdd(Co(p, i), Co(q, i))]))
PScale(c, p) == TLCEval([i \in 1..Len(p) |-> QMul(c, p[i])])
PMul(p, q) == IF p = <<>> \/ q = <<>> THEN <<>>
              ELSE TLCEval([k \in 1..(Len(p) + Len(q) - 1) |-> QSum([i \in 1..k |-> QMul(Co(p, i), Co(q, k - i + 1))])])
PInt(p) == TLCEval(<<QI(0)>> \o [i \in 1..Len(p) |-> QDiv(p[i], QI(i))])
PAt1(p) == QSum(p)
RECURSIVE PSum(_)
PSum(s) == IF s = <<>> THEN <<>> ELSE PAdd(Head(s), PSum(Tail(s)))

\* the weight-k part of a product of coordinates, of the force
RECURSIVE Prod(_, _, _)
Prod(X, idx, k) ==
  IF idx = <<>> THEN (IF k = 0 THEN <<QI(1)>> ELSE <<>>)
  ELSE PSum(TLCEval([m \in 1..(k + 1) |-> PMul(X[idx[1]][m], Prod(X, Tail(idx), k + 1 - m))]))
Force(X, i, k) == LET ms == prob.f[i] IN PSum(TLCEval([m \in 1..Len(ms) |-> PScale(ms[m][1], Prod(X, ms[m][2], k))]))

\* one stretch: series whose coefficients are polynomials
RECURSIVE Build(_, _, _, _)
Build(X, V, k, r) ==
  IF k > N THEN <<X, V>>
  ELSE LET d == QI(dir)
           newV(i) == Trim(LET slow == IF k < 2 THEN <<>>
                                  ELSE PInt(PAdd(PScale(QNeg(QMul(d, prob.gamma[i])), V[i][k - 1]),
                                                 PScale(QNeg(QMul(d, prob.u[i])), Force(X, i, k - 2))))
                      IN PAdd(<<v[i][k + 1]>>, PAdd(slow, IF k = 1 THEN <<QI(0), QMul(prob.sigma[i], QI(r[i]))>> ELSE <<>>)))
           newX(i) == Trim(PAdd(<<x[i][k + 1]>>, IF k < 2 THEN <<>> ELSE PInt(PScale(d, V[i][k - 1]))))
       IN  Build(TLCEval([i \in Two |-> Append(X[i], newX(i))]), TLCEval([i \in Two |-> Append(V[i], newV(i))]), k + 1, r)

Const(c) == [k \in 1..(N + 1) |-> IF k = 1 THEN QI(c) ELSE QI(0)]
Init == /\ prob \in Problems /\ dir \in Dirs
        /\ path = <<<<0>>, <<0>>>>
        /\ x = [i \in Two |-> Const(prob.x0[i])] /\ v = [i \in Two |-> Const(prob.v0[i])]
Extend(r) == LET b == TLCEval(Build(<<<<>>, <<>>>>, <<<<>>, <<>>>>, 0, r)) IN
  /\ path' = [i \in Two |-> Append(path[i], path[i][Len(path[i])] + r[i])]
  /\ x' = TLCEval([i \in Two |-> [k \in 1..(N + 1) |-> PAt1(b[1][i][k])]])
  /\ v' = TLCEval([i \in Two |-> [k \in 1..(N + 1) |-> PAt1(b[2][i][k])]])
  /\ UNCHANGED <<prob, dir>>
Next == (\E n \in Lengths : Len(path[1]) <= n) /\ \E r \in Rates \X Rates : Extend(r)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
h == QI(dir * Dur(path[1]))
W(i) == QI(Inc(path[i]))
H(i) == Q(SH(path[i]), 2 * Larger(1, Dur(path[i])))
K(i) == Q(SK(path[i]), 12 * Larger(1, Dur(path[i])) * Larger(1, Dur(path[i])))
Half == Q(1, 2)
\* constant force and its derivative at the start
Val(p) == QI(prob.x0[p])
RECURSIVE Eval(_)
Eval(idx) == IF idx = <<>> THEN QI(1) ELSE QMul(Val(idx[1]), Eval(Tail(idx)))
F0(i) == QSum([m \in 1..Len(prob.f[i]) |-> QMul(prob.f[i][m][1], Eval(prob.f[i][m][2]))])
Drop(idx, j) == [k \in 1..(Len(idx) - 1) |-> IF k < j THEN idx[k] ELSE idx[k + 1]]
Jac(i, j) == QSum([m \in 1..Len(prob.f[i]) |->
               LET idx == prob.f[i][m][2] IN
               QMul(prob.f[i][m][1], QSum([p \in 1..Len(idx) |-> IF idx[p] = j THEN Eval(Drop(idx, p)) ELSE QI(0)]))])
Along(i, g(_)) == QAdd(QMul(Jac(i, 1), g(1)), QMul(Jac(i, 2), g(2)))
\* int w dt and int int w dt dt
I1(i) == QMul(h, QAdd(QMul(Half, W(i)), H(i)))
I2(i) == QMul(QMul(h, h), QAdd(K(i), QAdd(QMul(Q(1, 6), W(i)), QMul(Half, H(i)))))
Drag(i) == QAdd(QMul(prob.gamma[i], QI(prob.v0[i])), QMul(prob.u[i], F0(i)))
hh == QMul(Half, QMul(h, h))

\* up to weight five everything is determined by h, W, H and K; and the noise needs K only from weight five on
Determined == \A i \in Two :
  LET s == prob.sigma[i]  g == prob.gamma[i]  u == prob.u[i]
      X(k) == x[i][k + 1]  V(k) == v[i][k + 1] IN
    /\ X(0) = QI(prob.x0[i]) /\ V(0) = QI(prob.v0[i]) /\ X(1) = QI(0)
    /\ V(1) = QMul(s, W(i))
    /\ X(2) = QMul(h, QI(prob.v0[i])) /\ V(2) = QNeg(QMul(h, Drag(i)))
    /\ X(3) = QMul(s, I1(i)) /\ V(3) = QNeg(QMul(g, X(3)))
    /\ X(4) = QNeg(QMul(hh, Drag(i)))
    /\ V(4) = QNeg(QAdd(QMul(g, X(4)), QMul(QMul(u, hh), Along(i, LAMBDA j : QI(prob.v0[j])))))
    /\ X(5) = QNeg(QMul(QMul(g, s), I2(i)))
    /\ V(5) = QNeg(QAdd(QMul(g, X(5)), QMul(u, Along(i, LAMBDA j : QMul(prob.sigma[j], I2(j))))))
\* momentum: without force, v + gamma x only changes with the noise
Balance == \A i \in Two : prob.f[i] = <<>> =>
  \A k \in 1..N : QAdd(v[i][k + 1], QMul(prob.gamma[i], x[i][k + 1])) = (IF k = 1 THEN QMul(prob.sigma[i], W(i)) ELSE QI(0))
Fluctuation == \A i \in Two : QMul(prob.sigma[i], prob.sigma[i]) = QMul(QI(2), QMul(prob.gamma[i], prob.u[i]))

Emit == (Dur(path[1]) \in Lengths) => PrintT("BEHAVIOUR " \o ToJson(
  [prob |-> prob, dir |-> dir, n |-> Dur(path[1]), W |-> [i \in Two |-> Inc(path[i])], SH |-> [i \in Two |-> SH(path[i])],
   SK |-> [i \in Two |-> SK(path[i])], x |-> x, v |-> v,
   est |-> [i \in Two |-> QNeg(QMul(QMul(prob.u[i], hh), Along(i, LAMBDA j : QI(prob.v0[j]))))]]))
=============================================================================
