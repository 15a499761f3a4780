------------------------------- MODULE MCBatch -------------------------------
EXTENDS Batch
MCValues == {-1, 2}
MCFamilies == {"ode", "split", "partitioned", "cde", "sde"}
MCSolversOf(f) ==
  CASE f = "ode" -> {"Euler", "Heun", "Bosh3", "Tsit5", "Dopri8", "ImplicitEuler", "Kvaerno3", "Kvaerno5", "ReversibleHeun", "LeapfrogMidpoint", "HalfEuler", "HalfImplicit"}
    [] f = "split" -> {"KenCarp3", "Sil3"}
    [] f = "partitioned" -> {"SemiImplicitEuler"}
    [] f = "cde" -> {"Heun", "Tsit5", "ReversibleHeun"}
    [] f = "sde" -> {"Heun", "EulerHeun", "ItoMilstein", "ReversibleHeun", "SEA", "ShARK", "SPaRK", "SlowRK", "HalfSPaRK"}
MCControllers == {"constant", "given", "pid", "pid-clip", "pid-dtmin", "pid-revisit"}
MCEvents == {"none", "state-any", "state-up", "time-root", "bool"}
MCAdjoints == {"none", "recursive", "direct", "backsolve"}
MCKinds == {"plain", "short", "long", "later", "backwards", "still", "rough", "undefined", "early event", "no event"}
=============================================================================
