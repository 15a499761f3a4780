-------------------------------- MODULE Batch --------------------------------
(* Solving many problems in one vectorised batch. A batch advances in rounds: in   *)
(* every round each element that is still going makes one attempt; the others are   *)
(* carried along. What an element does is its own history, and that history is the     *)
(* one it has alone, however the others start, end, reject or fail. Here an element     *)
(* is a kind (what happens to it) whose solitary history is a word of attempts.         *)
EXTENDS Mirror, FiniteSets

CONSTANTS Kinds, Lanes

VARIABLES lanes, done, alive

all == <<prob, path, at, fwd, bwd, lanes, done, alive>>

\* the solitary histories: accepted (a), rejected (r), and how they end
Solo(k) ==
  CASE k = "plain" -> <<"a", "a", "a", "end">>
    [] k = "short" -> <<"a", "end">>
    [] k = "long" -> <<"a", "a", "a", "a", "a", "end">>
    [] k = "later" -> <<"a", "a", "a", "end">>
    [] k = "backwards" -> <<"a", "a", "a", "end">>
    [] k = "still" -> <<"end">>
    [] k = "rough" -> <<"r", "a", "r", "r", "a", "a", "end">>
    [] k = "undefined" -> <<"r", "r", "r", "r", "r", "fail">>
    [] k = "early event" -> <<"a", "event">>
    [] k = "no event" -> <<"a", "a", "a", "end">>
Ends(k) == Solo(k)[Len(Solo(k))]

\* an empty interval has no list of steps; an equation that is undefined has no derivative to speak of
Allowed(k) ==
  /\ k = "still" => (prob.controller # "given" /\ prob.adjoint # "backsolve")
  /\ k = "undefined" => prob.adjoint = None
  /\ k \in {"early event", "no event"} => prob.event # None
  /\ k = "backwards" => prob.solver # "ItoMilstein"

BInit ==
  /\ Init
  /\ lanes = <<>>
  /\ done = [l \in 1..Lanes |-> <<>>] /\ alive = [l \in 1..Lanes |-> TRUE]
\* the batch is put together
Gather ==
  /\ Len(lanes) < Lanes
  /\ \E k \in Kinds : Allowed(k) /\ lanes' = Append(lanes, k)
  /\ Len(lanes) = Lanes - 1 => Cardinality({lanes'[l] : l \in 1..Lanes}) > 1
  /\ UNCHANGED <<prob, path, at, fwd, bwd, done, alive>>
Round ==
  /\ Len(lanes) = Lanes
  /\ \E l \in 1..Lanes : alive[l]
  /\ done' = [l \in 1..Lanes |-> IF alive[l] THEN Append(done[l], Solo(lanes[l])[Len(done[l]) + 1]) ELSE done[l]]
  /\ alive' = [l \in 1..Lanes |-> alive[l] /\ done'[l][Len(done'[l])] \in {"a", "r"}]
  /\ UNCHANGED <<prob, path, at, fwd, bwd, lanes>>
BSpec == BInit /\ [][Gather \/ Round]_all

\* an element's part of the batch is a beginning of its own history, and all of it once it has ended
Own == Len(lanes) = Lanes => \A l \in 1..Lanes : SubSeq(Solo(lanes[l]), 1, Len(done[l])) = done[l]
Frozen == Len(lanes) = Lanes => \A l \in 1..Lanes : ~alive[l] => done[l] = Solo(lanes[l])
Finished == \A l \in 1..Lanes : ~alive[l]
BEmit == Finished => PrintT("BEHAVIOUR " \o ToJson([prob |-> prob, path |-> path, lanes |-> lanes, ends |-> [l \in 1..Lanes |-> Ends(lanes[l])]]))
=============================================================================
