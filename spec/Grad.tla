-------------------------------- MODULE Grad --------------------------------
(* A solve is a function of its inputs, and differentiating it gives that      *)
(* function's derivative. Every quantity carries, next to its value, its        *)
(* derivative with respect to each input: initial state, parameter, start, end,  *)
(* first step size, and the requested time (dual numbers, exact rationals).      *)
(* The state machine takes steps of a method for  y' = a y + c t  (or a y^2),     *)
(* under a controller that follows a script of acceptances and rejections and     *)
(* rescales the step, clips at the end, answers one requested time by linear      *)
(* interpolation, and may stop at a level crossing.                              *)
EXTENDS Rationals, Sequences, FiniteSets, TLC, Json

CONSTANTS Solvers, Fields, Scripts, Y0s, As, T0, T1s, Dt0s, Queries, Levels

VARIABLES cfg, t, dt, y, mem, k, out, status

vars == <<cfg, t, dt, y, mem, k, out, status>>
Names == 1..6     \* y0, a, t0, t1, dt0, query time
NoLevel == <<0, 0>>

\* dual numbers
Fine(x) == Good(x.v) /\ \A i \in Names : Good(x.d[i])
Const(q) == [v |-> q, d |-> [i \in Names |-> QI(0)]]
Input(q, n) == [v |-> q, d |-> [i \in Names |-> IF i = n THEN QI(1) ELSE QI(0)]]
DAdd(x, z) == TLCEval([v |-> SAdd(x.v, z.v), d |-> [i \in Names |-> SAdd(x.d[i], z.d[i])]])
DNeg(x) == [v |-> SNeg(x.v), d |-> [i \in Names |-> SNeg(x.d[i])]]
DSub(x, z) == DAdd(x, DNeg(z))
DMul(x, z) == TLCEval([v |-> SMul(x.v, z.v), d |-> [i \in Names |-> SAdd(SMul(x.v, z.d[i]), SMul(x.d[i], z.v))]])
DInv(x) == TLCEval([v |-> SDiv(QI(1), x.v), d |-> [i \in Names |-> SNeg(SDiv(SDiv(x.d[i], x.v), x.v))]])
DDiv(x, z) == DMul(x, DInv(z))
Scale(q, x) == DMul(Const(q), x)
Half(x) == Scale(Q(1, 2), x)

A == Input(cfg.a, 2)
F(s, z) == IF cfg.field = "lin" THEN DAdd(DMul(A, z), s) ELSE DMul(A, DMul(z, z))
EndTime == Input(cfg.t1, 4)

\* one step; mem is what the method remembers (time and state before; companion state)
Result(s, e, z) ==
  LET h == DSub(e, s) f0 == F(s, z) IN
  CASE cfg.solver = "Euler" -> [y |-> DAdd(z, DMul(h, f0)), mem |-> mem]
    [] cfg.solver = "Heun" -> [y |-> DAdd(z, Half(DMul(h, DAdd(f0, F(e, DAdd(z, DMul(h, f0))))))), mem |-> mem]
    [] cfg.solver = "Midpoint" -> [y |-> DAdd(z, DMul(h, F(DAdd(s, Half(h)), DAdd(z, Half(DMul(h, f0)))))), mem |-> mem]
    [] cfg.solver = "ImplicitEuler" -> [y |-> DDiv(DAdd(z, DMul(h, e)), DSub(Const(QI(1)), DMul(A, h))), mem |-> mem]
    [] cfg.solver = "LeapfrogMidpoint" -> [y |-> DAdd(mem[2], DMul(DSub(e, mem[1]), f0)), mem |-> <<s, z>>]
    [] cfg.solver = "ReversibleHeun" -> LET z1 == DAdd(DSub(Scale(QI(2), z), mem[2]), DMul(h, F(s, mem[2]))) IN
         [y |-> DAdd(z, Half(DMul(h, DAdd(F(s, mem[2]), F(e, z1))))), mem |-> <<s, z1>>]

Init ==
  /\ cfg \in [solver : Solvers, field : Fields, script : Scripts, y0 : Y0s, a : As, t1 : T1s, dt0 : Dt0s, q : Queries, level : Levels]
  /\ cfg.field = "quad" => cfg.solver = "Euler"
  \* (the other methods do not interpolate linearly)
  /\ cfg.solver \in {"Heun", "Midpoint"} => cfg.level = NoLevel /\ \A q \in Queries : ~QLess(q, cfg.q)
  /\ t = Input(T0, 3) /\ dt = Input(cfg.dt0, 5) /\ y = Input(cfg.y0, 1) /\ mem = <<Input(T0, 3), Input(cfg.y0, 1)>>
  /\ k = 1 /\ out = [steps |-> <<>>, query |-> <<>>, final |-> <<>>] /\ status = "run"

Between(p, s, e) == ~QLess(p, s) /\ QLess(p, e)
\* linear interpolation at a time
At(s, e, z0, z1, q) == DAdd(z0, DMul(DDiv(DSub(q, s), DSub(e, s)), DSub(z1, z0)))
Crosses(z0, z1) == cfg.level # NoLevel /\ ((QLess(z0.v, cfg.level) /\ QLess(cfg.level, z1.v)) \/ (QLess(z1.v, cfg.level) /\ QLess(cfg.level, z0.v)))

Attempt ==
  LET raw == DAdd(t, dt)
      kept == k = 1 \/ cfg.script[k - 1].accept
      e == IF QLess(raw.v, cfg.t1) THEN raw ELSE IF kept THEN EndTime ELSE DAdd(t, Half(DSub(EndTime, t)))
      r == Result(t, e, y)
      s == cfg.script[k]
      hit == Crosses(y, r.y)
      te == IF hit THEN DAdd(t, DMul(DSub(e, t), DDiv(DSub(Const(cfg.level), y), DSub(r.y, y)))) ELSE e
      ye == IF hit THEN Const(cfg.level) ELSE r.y
      q == Input(cfg.q, 6)
  IN
  /\ status = "run" /\ k <= Len(cfg.script) /\ \A x \in {r.y, te, ye, raw} : Fine(x)
  \* no ties
  /\ raw.v # cfg.t1 /\ te.v # cfg.q /\ (cfg.level = NoLevel \/ r.y.v # cfg.level)
  /\ k' = k + 1 /\ UNCHANGED cfg
  /\ dt' = Scale(s.factor, dt)
  /\ IF s.accept
     THEN /\ t' = te /\ y' = ye /\ mem' = r.mem
          /\ out' = [steps |-> Append(out.steps, <<te, ye>>),
                     query |-> IF Between(cfg.q, t.v, te.v) THEN <<At(t, te, y, ye, q)>> ELSE out.query,
                     final |-> IF hit \/ e = EndTime THEN <<te, ye>> ELSE <<>>]
          /\ status' = IF hit THEN "event" ELSE IF e = EndTime THEN "done" ELSE "run"
     ELSE UNCHANGED <<t, y, mem, out, status>>
Spec == Init /\ [][Attempt]_vars

\* the start does not depend on the future: no dependence on the end before the last step, on the query in the solution
Causal == /\ \A i \in 1..Len(out.steps) : out.steps[i][2].d[6] = QI(0) /\ out.steps[i][1].d[6] = QI(0)
          /\ status = "run" => y.d[4] = QI(0)
          /\ \A i \in 1..Len(out.steps) : out.steps[i][1].d[1] = QI(0) \/ (status = "event" /\ i = Len(out.steps))
          /\ status = "done" => t.d = [i \in Names |-> IF i = 4 THEN QI(1) ELSE QI(0)]
\* shifting time shifts everything, where the field does not look at the clock
Shift == (status = "done" /\ cfg.field = "quad") => QAdd(y.d[3], y.d[4]) = QI(0)
\* linear fields without clock dependence scale: checked for the explicit formula of one Euler step
Level == status = "event" => y = Const(cfg.level)
\* towards a steady state, where f = 0 defines y: the derivative by the parameter of the implicit function
Steady == LET yv == y.v a == cfg.a IN
          IF cfg.field = "lin" THEN SNeg(SDiv(yv, a)) ELSE SNeg(SDiv(SMul(yv, yv), SMul(QI(2), SMul(a, yv))))
Emit == (status # "run") => PrintT("BEHAVIOUR " \o ToJson([cfg |-> cfg, n |-> k - 1, status |-> status, steps |-> out.steps, query |-> out.query, steady |-> Steady]))
=============================================================================
