------------------------------ MODULE Backsolve ------------------------------
(* Backpropagation by solving the adjoint equations backwards in time.          *)
(* Forward: steps of a method for  y' = f(t, y, p)  under a scripted controller,   *)
(* saving at requested times. Backward: from each saved time to the one before,    *)
(* the same method steps the augmented system  (y, a, g)' = (f, -a f_y, -a f_p),   *)
(* starting from the saved y; a gains the cotangent of every saved value when it    *)
(* passes its time. (The way back may be given a method, controller and first step of   *)
(* its own.) The method starts afresh on every stretch (adding a cotangent is   *)
(* a jump), the controller carries on.                                            *)
EXTENDS Rationals, Sequences, FiniteSets, TLC, Json

CONSTANTS Solvers, Fields, Scripts, Y0s, Ps, T0, T1, Dt0s, Saves, Cotangents, Backs

VARIABLES cfg, phase, t, target, step, dt, z, mem, k, kept, saved, i

vars == <<cfg, phase, t, target, step, dt, z, mem, k, kept, saved, i>>

\* the augmented field; forward only the first component is used (a and g stay zero)
F(s, w) ==
  LET y == w[1] a == w[2]
      f == IF cfg.field = "lin" THEN SAdd(SMul(cfg.p, y), s) ELSE SMul(cfg.p, SMul(y, y))
      fy == IF cfg.field = "lin" THEN cfg.p ELSE SMul(QI(2), SMul(cfg.p, y))
      fp == IF cfg.field = "lin" THEN y ELSE SMul(y, y)
  IN TLCEval(<<f, SNeg(SMul(a, fy)), SNeg(SMul(a, fp))>>)
VAdd(w, h, v) == TLCEval([n \in 1..3 |-> SAdd(w[n], SMul(h, v[n]))])
\* what the present direction is solved with
Own == cfg.back.own /\ phase # "forward"
Solver == IF Own THEN cfg.back.solver ELSE cfg.solver
Script == IF Own THEN cfg.back.script ELSE cfg.script
BackDt0 == IF cfg.back.own THEN cfg.back.dt0 ELSE cfg.dt0
HalfOf(q) == SMul(Q(1, 2), q)
SSub(x, w) == SAdd(x, SNeg(w))

\* one step from s to e (either direction); mem: <<time, state>>
Result(s, e, w, m) ==
  LET h == SSub(e, s) IN
  CASE Solver = "Euler" -> <<VAdd(w, h, F(s, w)), m>>
    [] Solver = "Heun" -> LET f0 == F(s, w) IN <<VAdd(VAdd(w, HalfOf(h), f0), HalfOf(h), F(e, VAdd(w, h, f0))), m>>
    [] Solver = "LeapfrogMidpoint" -> <<VAdd(m[2], SSub(e, m[1]), F(s, w)), <<s, w>>>>
    [] Solver = "ReversibleHeun" ->
         LET f0 == F(s, m[2]) w1 == VAdd(VAdd(VAdd(w, QI(1), w), QI(-1), m[2]), h, f0) IN <<VAdd(VAdd(w, HalfOf(h), f0), HalfOf(h), F(e, w1)), <<s, w1>>>>

Zero == QI(0)
Init ==
  /\ cfg \in [solver : Solvers, field : Fields, script : Scripts, y0 : Y0s, p : Ps, dt0 : Dt0s, save : Saves, cot : Cotangents, back : Backs]
  \* (its interpolation is a cubic)
  /\ cfg.solver = "Heun" => cfg.save.ts = <<>>
  /\ phase = "forward" /\ t = T0 /\ target = T1 /\ step = cfg.dt0 /\ dt = cfg.dt0
  /\ z = <<cfg.y0, Zero, Zero>> /\ mem = <<T0, <<cfg.y0, Zero, Zero>>>> /\ k = 1 /\ kept = TRUE
  /\ saved = (IF cfg.save.t0 THEN <<<<T0, cfg.y0>>>> ELSE <<>>) \o [n \in 1..Cardinality({m \in 1..Len(cfg.save.ts) : cfg.save.ts[m] = T0}) |-> <<T0, cfg.y0>>]
  /\ i = 0

\* requested times within (s, e]
Hits(s, e) == SelectSeq(cfg.save.ts, LAMBDA q : QLess(s, q) /\ ~QLess(e, q))
At(s, e, y, y1, q) == SAdd(y, SMul(SDiv(SSub(q, s), SSub(e, s)), SSub(y1, y)))

\* leaving entry n backwards, having come to it with a and g
RECURSIVE Leave(_, _, _)
Leave(n, a, g) ==
  IF n = 0 THEN [to |-> "done", a |-> a, g |-> g, n |-> 0]
  ELSE LET a1 == SAdd(a, cfg.cot[n]) prev == IF n > 1 THEN saved[n - 1][1] ELSE T0 IN
       IF n = 1 /\ cfg.save.t0 THEN [to |-> "done", a |-> a1, g |-> g, n |-> 0]
       ELSE IF prev = saved[n][1] THEN Leave(n - 1, a1, g)
       ELSE [to |-> "backward", a |-> a1, g |-> g, n |-> n]

Start(leg) ==
  /\ phase' = leg.to /\ i' = leg.n /\ kept' = TRUE /\ step' = BackDt0
  /\ IF leg.to = "done" THEN z' = <<Zero, leg.a, leg.g>> /\ UNCHANGED <<t, target, mem>>
     ELSE /\ z' = <<saved[leg.n][2], leg.a, leg.g>> /\ t' = saved[leg.n][1]
          /\ target' = (IF leg.n > 1 THEN saved[leg.n - 1][1] ELSE T0)
          /\ mem' = <<saved[leg.n][1], <<saved[leg.n][2], leg.a, leg.g>>>>

Turn ==
  /\ phase = "turn" /\ Start(Leave(Len(saved), Zero, Zero))
  /\ k' = 1 /\ dt' = BackDt0 /\ UNCHANGED <<cfg, saved>>
Next == \* the end of one stretch
  /\ phase = "stretch" /\ Start(Leave(i - 1, z[2], z[3])) /\ UNCHANGED <<cfg, saved, k, dt>>

Entry == Script[IF k > Len(Script) THEN k - Len(Script) ELSE k]
Attempt ==
  LET dir == IF phase = "forward" THEN 1 ELSE -1
      raw == SAdd(t, SMul(QI(dir), step))
      short == IF dir = 1 THEN QLess(raw, target) ELSE QLess(target, raw)
      e == IF short THEN raw ELSE IF kept THEN target ELSE HalfOf(SAdd(t, target))
      r == Result(t, e, z, mem)
  IN
  /\ phase \in {"forward", "backward"} /\ k <= 2 * Len(Script)
  /\ \A n \in 1..3 : Good(r[1][n]) /\ Good(r[2][2][n])
  /\ k' = k + 1 /\ kept' = Entry.accept /\ dt' = SMul(Entry.factor, dt) /\ step' = dt'
  /\ UNCHANGED <<cfg, target, i>>
  /\ IF Entry.accept
     THEN /\ t' = e /\ z' = r[1] /\ mem' = r[2]
          /\ LET hits == Hits(t, e)
                 new == [n \in 1..Len(hits) |-> <<hits[n], At(t, e, z[1], r[1][1], hits[n])>>]
                 last == IF e = target /\ cfg.save.t1 THEN <<<<e, r[1][1]>>>> ELSE <<>>
             IN saved' = IF phase = "forward" THEN TLCEval(saved \o new \o last) ELSE saved
          /\ phase' = IF e # target THEN phase ELSE IF phase = "forward" THEN "turn" ELSE "stretch"
     ELSE UNCHANGED <<t, z, mem, saved, phase>>
Step == Attempt \/ Turn \/ Next
Spec == Init /\ [][Step]_vars

Usable == \A n \in 1..Len(saved) : Good(saved[n][1]) /\ Good(saved[n][2])
\* cotangents only enter at the times of their values; nothing is asked of later times
Quiet == (phase = "done" /\ \A n \in 1..Len(saved) : cfg.cot[n] = Zero) => z[2] = Zero /\ z[3] = Zero
Backward == phase = "backward" => \A n \in 1..Len(saved) : (n < i => ~QLess(t, saved[n][1]))
\* where only the start is saved the solve is the identity
Identity == (phase = "done" /\ Len(saved) = 1 /\ cfg.save.t0) => z[2] = cfg.cot[1] /\ z[3] = Zero
Emit == (phase = "done" /\ Usable) => PrintT("BEHAVIOUR " \o ToJson([cfg |-> cfg, saved |-> saved, a |-> z[2], g |-> z[3]]))
=============================================================================
