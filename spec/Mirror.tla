------------------------------- MODULE Mirror -------------------------------
(* Solving backwards in time is solving the mirrored problem forwards.        *)
(*                                                                          *)
(* A problem is put together from parts; mirroring it negates times (start,   *)
(* end, step sizes, requested times, marked times, event times), negates the  *)
(* drift, and runs every driving path backwards. The state machine assembles  *)
(* problems and drives them over a few steps of an abstract solve, forwards    *)
(* and mirrored side by side; what each sees has to be the mirror image.       *)
EXTENDS Levy, TLC, Json

CONSTANTS Families,      \* what kind of equation
          SolversOf(_),  \* methods that apply
          Controllers, Events, Adjoints, Values, N

VARIABLES prob, path, at, fwd, bwd

vars == <<prob, path, at, fwd, bwd>>

None == "none"
Adaptive(c) == c \in {"pid", "pid-clip", "pid-dtmin", "pid-revisit"}
\* not everything can be combined
Valid(p) ==
  /\ (p.family = "sde" /\ Adaptive(p.controller)) => p.solver \in {"SPaRK", "ReversibleHeun", "Heun"}
  /\ (p.family = "sde") => p.adjoint # "backsolve"
  /\ (p.solver \in {"Euler", "LeapfrogMidpoint", "SemiImplicitEuler", "EulerHeun", "ItoMilstein", "StratonovichMilstein", "SEA",
                    "SlowRK", "GeneralShARK"}) => ~Adaptive(p.controller)
  /\ (p.solver = "LeapfrogMidpoint") => p.controller = "constant"
  /\ (p.adjoint = "backsolve") => (p.event = None /\ p.controller # "given" /\ p.family \in {"ode", "cde"} /\ p.solver \notin {"Kvaerno3", "Kvaerno5", "KenCarp3", "ImplicitEuler", "HalfImplicit"})
  /\ (p.adjoint # None) => p.event \in {None, "time-root"}
  /\ (p.family = "sde") => p.event \in {None, "state-any"}

Init == /\ \E f \in Families : \E s \in SolversOf(f), c \in Controllers, e \in Events, a \in Adjoints :
             prob = [family |-> f, solver |-> s, controller |-> c, event |-> e, adjoint |-> a]
        /\ Valid(prob)
        /\ path \in {<<0>> \o p : p \in [1..N -> Values]}
        /\ at = 0 /\ fwd = <<>> /\ bwd = <<>>

\* forwards a step goes from tick a to b; mirrored, from -a to -b: internally the stretch [-b, -a] of the mirrored path
Mir == [i \in 1..Len(path) |-> path[Len(path) + 1 - i]]      \* at time -i the value at time i
Step == /\ at < N
        /\ \E b \in (at + 1)..N :
             /\ at' = b
             /\ fwd' = Append(fwd, [dt |-> b - at, W |-> Inc(Part(path, at, b)), SH |-> SH(Part(path, at, b)), SK |-> SK(Part(path, at, b))])
             \* what the path says over [-b, -at], and then turned around
             /\ LET p == Part(Mir, N - b, N - at) IN
                  bwd' = Append(bwd, [dt |-> b - at, W |-> -Inc(p), SH |-> SH(p), SK |-> -SK(p)])
        /\ UNCHANGED <<prob, path>>
Spec == Init /\ [][Step]_vars

\* the mirrored solve sees the same increments and areas
SameView == fwd = bwd
Emit == (at = N) => PrintT("BEHAVIOUR " \o ToJson([prob |-> prob, path |-> path]))
=============================================================================
