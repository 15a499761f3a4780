------------------------------ MODULE MCMirror ------------------------------
EXTENDS Mirror
MCValues == {-1, 2}
MCFamilies == {"ode", "split", "partitioned", "cde", "sde"}
MCSolversOf(f) ==
  CASE f = "ode" -> {"Euler", "Heun", "Midpoint", "Ralston", "Bosh3", "Tsit5", "Dopri5", "Dopri8", "ImplicitEuler", "Kvaerno3", "Kvaerno5",
                     "ReversibleHeun", "LeapfrogMidpoint", "HalfEuler", "HalfImplicit"}
    [] f = "split" -> {"KenCarp3", "KenCarp4", "Sil3"}
    [] f = "partitioned" -> {"SemiImplicitEuler"}
    [] f = "cde" -> {"Euler", "Heun", "Tsit5", "Dopri8", "ReversibleHeun"}
    [] f = "sde" -> {"Euler", "Heun", "EulerHeun", "ItoMilstein", "StratonovichMilstein", "ReversibleHeun", "SEA", "SRA1", "ShARK", "SPaRK",
                     "SlowRK", "GeneralShARK", "HalfSPaRK"}
MCControllers == {"constant", "given", "pid", "pid-clip", "pid-dtmin", "pid-revisit"}
MCEvents == {"none", "state-any", "state-up", "time-root", "bool"}
MCAdjoints == {"none", "recursive", "direct", "backsolve"}
=============================================================================
