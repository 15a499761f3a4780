-------------------------------- MODULE Legs --------------------------------
(* A solve made in several legs is the solve made in one go, and the library's own   *)
(* parts have to keep it so.                                                        *)
(*                                                                          *)
(* A problem is assembled from parts. The method and the controller are opaque: all *)
(* that is known of them is that what they do next depends on what they are handed  *)
(* (the history of kept attempts, for the method; of all attempts, for the            *)
(* controller). Two solves run side by side: one in one go, and one that is stopped    *)
(* after the attempts in `cuts` by its budget and resumed with what it returned. A      *)
(* third one ("retaken") makes only the kept attempts, as a prescribed list of steps.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Families, SolversOf(_), Controllers, Directions, N

VARIABLES prob, cuts, n, whole, legs, retaken

vars == <<prob, cuts, n, whole, legs, retaken>>

Adaptive(c) == c # "constant"
NoEstimate == {"Euler", "LeapfrogMidpoint", "SemiImplicitEuler", "EulerHeun", "ItoMilstein", "StratonovichMilstein", "SEA", "SlowRK", "GeneralShARK",
               "ShOULD", "QUICSORT"}
Valid(p) ==
  /\ p.solver \in NoEstimate => ~Adaptive(p.controller)
  /\ p.family = "langevin" => p.direction = 1
  \* leapfrog is only second order (and only itself) with constant steps and no discontinuities
  /\ p.solver = "LeapfrogMidpoint" => p.controller = "constant"

\* mem: kept attempts the method has seen; log: everything the controller has seen
Fresh == [mem |-> <<>>, log |-> <<>>, jump |-> FALSE]
Did(s, k, keep, jump) == [mem |-> IF keep THEN Append(s.mem, k) ELSE s.mem,
                          log |-> Append(s.log, <<k, keep>>),
                          jump |-> IF keep THEN jump ELSE s.jump]

Init == /\ \E f \in Families : \E s \in SolversOf(f), c \in Controllers, d \in Directions :
             prob = [family |-> f, solver |-> s, controller |-> c, direction |-> d]
        /\ Valid(prob)
        /\ cuts \in {c \in SUBSET (1..N-1) : Cardinality(c) \in 1..2}
        /\ n = 0 /\ whole = Fresh /\ legs = <<Fresh>> /\ retaken = Fresh

Attempt == /\ n < N
           /\ n' = n + 1
           /\ \E keep \in IF Adaptive(prob.controller) THEN BOOLEAN ELSE {TRUE}, jump \in IF prob.controller = "pid-clip" THEN BOOLEAN ELSE {FALSE} :
                /\ whole' = Did(whole, n + 1, keep, jump)
                /\ LET l == legs[Len(legs)]
                       l1 == Did(l, n + 1, keep, jump) IN
                   \* stopped by its budget: the next leg is handed what this one returned
                   legs' = IF n + 1 \in cuts THEN [legs EXCEPT ![Len(legs)] = l1] \o <<l1>> ELSE [legs EXCEPT ![Len(legs)] = l1]
                /\ retaken' = IF keep THEN Did(retaken, n + 1, TRUE, jump) ELSE retaken
           /\ UNCHANGED <<prob, cuts>>
Spec == Init /\ [][Attempt]_vars /\ WF_vars(Attempt)

\* resuming is transparent, and a rejected attempt is as if never made
Transparent == legs[Len(legs)] = whole
NoTrace == retaken.mem = whole.mem /\ retaken.jump = whole.jump
Legs == Len(legs) = 1 + Cardinality({c \in cuts : c <= n})
Done == <>(n = N)
Emit == (n = 0) => PrintT("BEHAVIOUR " \o ToJson([prob |-> prob, cuts |-> cuts]))
=============================================================================
