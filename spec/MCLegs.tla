------------------------------ MODULE MCLegs ------------------------------
EXTENDS Legs
MCFamilies == {"ode", "split", "partitioned", "cde", "sde", "langevin"}
MCSolversOf(f) ==
  CASE f = "ode" -> {"Euler", "Heun", "Midpoint", "Ralston", "Bosh3", "Tsit5", "Dopri5", "Dopri8", "ImplicitEuler", "Kvaerno3", "Kvaerno4", "Kvaerno5",
                     "ReversibleHeun", "LeapfrogMidpoint", "HalfEuler", "HalfImplicit"}
    [] f = "split" -> {"KenCarp3", "KenCarp4", "KenCarp5", "Sil3"}
    [] f = "partitioned" -> {"SemiImplicitEuler"}
    [] f = "cde" -> {"Euler", "Heun", "Tsit5", "Dopri8", "ReversibleHeun"}
    [] f = "sde" -> {"Euler", "Heun", "EulerHeun", "ItoMilstein", "StratonovichMilstein", "ReversibleHeun", "SEA", "SRA1", "ShARK", "SPaRK",
                     "SlowRK", "GeneralShARK", "HalfSPaRK"}
    [] f = "langevin" -> {"ALIGN", "ShOULD", "QUICSORT"}
MCControllers == {"constant", "pid", "pid-clip", "pid-dtmin", "pid-revisit"}
MCDirections == {1, -1}
=============================================================================
