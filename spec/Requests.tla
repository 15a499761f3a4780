------------------------------ MODULE Requests ------------------------------
(* What is asked of a solve, and whether it is refused or honoured.                    *)
(*                                                                          *)
(* A request names an equation, what drives it, a method, a step size controller, a       *)
(* first step, what to save, how to differentiate, what to stop for, a budget, and what    *)
(* it is used for. Each reason for which one is refused is stated on its own, from what    *)
(* the parts need and offer; a request is honoured when there is no reason to refuse it.    *)
(* The entry point handles it in stages (admission, integration, differentiation): the      *)
(* machine below goes through them and stops at the first stage with a reason.               *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json

CONSTANTS Equations, Methods, Controllers, FirstSteps, Saves, Adjoints, EventsOf, Budgets, Uses

VARIABLES req, stage, why
vars == <<req, stage, why>>

----------------------------------------------------------------------------
(* What the methods are. *)
Implicit == {"ImplicitEuler", "Kvaerno3", "KenCarp3", "Sil3", "HalfImplicitEuler"}
Imex == {"KenCarp3", "Sil3"}
Pairs == {"SemiImplicitEuler"}
SrkAdditive == {"SEA", "SRA1", "ShARK"}
SrkGeneral == {"SPaRK", "GeneralShARK", "SlowRK"}
Srk == SrkAdditive \cup SrkGeneral
Langevin == {"ALIGN", "ShOULD", "QUICSORT"}
Milsteins == {"ItoMilstein", "StratonovichMilstein"}
DriftDiffusion == Milsteins \cup {"EulerHeun"}
NoEstimate == {"Euler", "SemiImplicitEuler", "LeapfrogMidpoint", "SEA", "GeneralShARK", "SlowRK", "ShOULD", "QUICSORT"} \cup DriftDiffusion
Ito == {"Euler", "HalfEuler", "ItoMilstein"}
\* estimates the order of its error for a stochastic equation
KnowsStochastic == {"EulerHeun", "ItoMilstein", "StratonovichMilstein", "Euler", "Heun", "HalfEuler", "ReversibleHeun", "ALIGN", "ShOULD", "QUICSORT",
                    "Midpoint", "Ralston"} \cup Srk
SingleTerm(m) == ~(m \in Imex \cup Pairs \cup DriftDiffusion \cup Srk \cup Langevin)

Stochastic(r) == r.eq \in {"sde", "langevin"}
Adaptive(r) == r.controller \in {"pid", "clip"}
TwoTerms(r) == r.eq \in {"split", "cde", "sde", "langevin"}

----------------------------------------------------------------------------
(* Reasons, each on its own: names, and when they hold. *)
Reasons(r) == <<
  \* the equation is not of the shape the method is for
  <<"one equation for a method that splits into a pair", r.solver \in Pairs /\ r.eq # "pair">>,
  <<"a pair for a method that does not split", r.eq = "pair" /\ r.solver \notin Pairs>>,
  <<"one term for a method of several", r.eq = "ode" /\ ~SingleTerm(r.solver) /\ r.solver \notin Pairs>>,
  <<"stochastic method without noise", r.solver \in Srk \cup Langevin \cup Milsteins /\ ~Stochastic(r) /\ TwoTerms(r)>>,
  <<"Langevin method for another equation", r.solver \in Langevin /\ r.eq = "sde">>,
  \* the driver does not know the areas the method needs
  <<"space-time areas missing", Stochastic(r) /\ r.solver \in Srk \cup {"ALIGN"} /\ r.levy = "plain">>,
  <<"space-time-time areas missing", Stochastic(r) /\ r.solver \in {"ShOULD", "QUICSORT"} /\ r.levy # "areas">>,
  \* a method for noise that does not depend on the state
  <<"noise is not additive", r.solver \in SrkAdditive /\ r.eq = "sde" /\ r.noise = "multiplicative">>,
  \* nothing to choose steps by
  <<"no error estimate", Adaptive(r) /\ r.solver \in NoEstimate>>,
  <<"no order of the error", Adaptive(r) /\ Stochastic(r) /\ r.solver \notin NoEstimate /\ r.solver \notin KnowsStochastic>>,
  <<"halved steps of Euler's method are no guide for noise", Adaptive(r) /\ Stochastic(r) /\ r.solver = "HalfEuler">>,
  \* the first step, and the controller that is to make it
  <<"no first step", r.dt0 = "none" /\ r.controller = "constant">>,
  <<"first step given twice", r.dt0 # "none" /\ r.controller = "given">>,
  <<"first step the wrong way", r.dt0 = "against" /\ r.controller # "given">>,
  \* noise that cannot be asked about twice
  <<"unsafe noise with adaptive steps", r.driver = "unsafe" /\ Adaptive(r)>>,
  <<"unsafe noise made again", r.driver = "unsafe" /\ r.adjoint \in {"checkpoint", "backsolve"}>>,
  \* tolerances of the method's equations come from the controller, or have to be given
  <<"no tolerances", r.solver \in Implicit /\ ~Adaptive(r) /\ r.tols = "unset">>,
  <<"saved times outside", r.save = "ts-outside">>,
  <<"saved times unsorted", r.save = "ts-unsorted">>,
  <<"every step saved without a budget", r.save \in {"steps", "dense"} /\ r.budget = "none">>,
  \* what to stop for is one number or one truth value
  <<"event is not a scalar", r.event \in {"vector", "tuple"}>>,
  <<"event is not a real number", r.event = "integer">>,
  \* how to differentiate
  <<"implicit function theorem for more than the end", r.adjoint = "implicit" /\ r.save # "end">>,
  <<"continuous adjoint of more than values", r.adjoint = "backsolve" /\ r.save \in {"subs", "steps", "dense", "fn"}>>,
  <<"continuous adjoint with an event", r.adjoint = "backsolve" /\ r.event # "none">>,
  <<"continuous adjoint of an Ito solution", r.adjoint = "backsolve" /\ Stochastic(r) /\ r.solver \in Ito>>,
  <<"continuous adjoint of a split pair", r.adjoint = "backsolve" /\ r.solver \in Pairs>>,
  \* the adjoint equation is one term
  <<"continuous adjoint of a method of several terms", r.use = "reverse" /\ r.adjoint = "backsolve" /\ ~SingleTerm(r.solver)>>,
  <<"reverse mode through forward mode", r.use = "reverse" /\ r.adjoint = "forward">>,
  <<"reverse mode without a budget", r.use = "reverse" /\ r.adjoint \in {"checkpoint", "direct"} /\ r.budget = "none">>,
  <<"forward mode through a reverse rule", r.use = "forward" /\ r.adjoint \in {"checkpoint", "backsolve"}>>
>>
Late == {"continuous adjoint of a method of several terms", "reverse mode through forward mode", "reverse mode without a budget", "forward mode through a reverse rule"}
Holding(r) == {x[1] : x \in {y \in ToSet(Reasons(r)) : y[2]}}
Admission(r) == Holding(r) \ Late
Derivative(r) == Holding(r) \cap Late

----------------------------------------------------------------------------
(* Requests near one that is honoured: a plain one for the equation and method, with up to two things changed. *)
Plain(eq, m) ==
  [eq |-> eq, levy |-> IF eq \in {"sde", "langevin"} THEN "areas" ELSE "none", driver |-> IF eq \in {"sde", "langevin"} THEN "tree" ELSE "none",
   noise |-> IF eq = "sde" THEN "additive" ELSE "none", solver |-> m, tols |-> IF m \in Implicit THEN "own" ELSE "unset",
   controller |-> "constant", dt0 |-> "forward", save |-> "end", adjoint |-> "checkpoint", event |-> "none", budget |-> "some", use |-> "solve"]
Offers(eq, m) ==
  UNION {{<<f, v>> : v \in CASE
       f = "levy" -> IF eq \in {"sde", "langevin"} THEN {"plain", "area", "areas"} ELSE {}
    [] f = "driver" -> IF eq \in {"sde", "langevin"} THEN {"tree", "unsafe"} ELSE {}
    [] f = "noise" -> IF eq = "sde" THEN {"additive", "multiplicative"} ELSE {}
    [] f = "tols" -> IF m \in Implicit THEN {"unset"} ELSE {}
    [] f = "controller" -> Controllers [] f = "dt0" -> FirstSteps [] f = "save" -> Saves [] f = "adjoint" -> Adjoints
    [] f = "event" -> EventsOf [] f = "budget" -> Budgets [] f = "use" -> Uses} :
    f \in {"levy", "driver", "noise", "tols", "controller", "dt0", "save", "adjoint", "event", "budget", "use"}}
Changed(r, c) == [r EXCEPT ![c[1]] = c[2]]
Init == /\ \E eq \in Equations : \E m \in Methods :
             /\ (m \in Implicit => eq \notin {"sde", "langevin"})
             \* controllers that make their own first step start from a request without one
             /\ \E c1, c2 \in Offers(eq, m) : \E c3 \in {<<"eq", eq>>} \cup (IF "controller" \in {c1[1], c2[1]} THEN {<<"dt0", d>> : d \in FirstSteps} ELSE {}) :
                  req = Changed(Changed(Changed(Plain(eq, m), c1), c2), c3)
        /\ stage = "asked" /\ why = {}
Go == \/ /\ stage = "asked"
         /\ why' = Admission(req)
         /\ stage' = IF why' = {} THEN "admitted" ELSE "refused"
         /\ UNCHANGED req
      \/ /\ stage = "admitted"
         /\ why' = Derivative(req)
         /\ stage' = IF why' = {} THEN "honoured" ELSE "refused"
         /\ UNCHANGED req
Spec == Init /\ [][Go]_vars /\ WF_vars(Go)

Decided == <>(stage \in {"refused", "honoured"})
OnlyWithReason == (stage = "refused") <=> (why # {})
Final == [][stage \notin {"refused", "honoured"}]_vars
Emit == (stage \in {"refused", "honoured"}) => PrintT("BEHAVIOUR " \o ToJson([req |-> req, why |-> why]))
=============================================================================
