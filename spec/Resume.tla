------------------------------- MODULE Resume -------------------------------
(***************************************************************************)
(* Stopping a solve (at its end time, or because the attempt budget ran    *)
(* out) and resuming it with the returned state, method memory, controller *)
(* memory and jump flag.  The claim: the two legs together are one solve -- *)
(* the same tiling and the same hand-over of every piece of state as an    *)
(* uninterrupted one.                                                      *)
(***************************************************************************)
EXTENDS MCLoop
CONSTANTS T2s, Dt0Bs
VARIABLES leg, first

rvars == <<vars, leg, first>>
RInit == Init /\ leg = 1 /\ first = <<>>
RStep == Step /\ UNCHANGED <<leg, first>>
RFinish == Finish /\ UNCHANGED <<leg, first>>
ResumeLeg ==
  /\ pc = "done" /\ leg = 1
  /\ res \in {"successful", "max_steps_reached"}
  /\ \E t2 \in T2s, d \in Dt0Bs :
       /\ t2 > tp
       /\ pc' = "run" /\ leg' = 2
       /\ first' = <<[cfg |-> cfg, tp |-> tp, y |-> y, ss |-> ss, mj |-> mj, ns |-> ns,
                      na |-> na, nr |-> nr, res |-> res, natt |-> Len(att)]>>
       /\ cfg' = [cfg EXCEPT !.t1 = t2, !.dt0 = d]
       /\ tn' = Min(tp + d, t2)
       /\ ns' = 0 /\ na' = 0 /\ nr' = 0 /\ res' = "successful"
       /\ saves' = [i \in SubIds |-> <<>>] /\ tsi' = [i \in SubIds |-> 1]
       /\ dense' = <<>>
       /\ UNCHANGED <<tp, y, ss, mj, evv, evm, lastPiece, script, acc, att, fin>>
RNext == RStep \/ RFinish \/ ResumeLeg
RSpec == RInit /\ [][RNext]_rvars

\* the two legs are one solve
JoinedTiling == Tiling
JoinedRollback == Rollback
REmit == (pc = "done" /\ leg = 2) =>
  PrintT("BEHAVIOUR " \o ToJson([tag |-> Tag, maxsteps |-> MaxSteps, first |-> first[1],
     cfg |-> cfg, script |-> script, att |-> att, tp |-> tp, y |-> y, ss |-> ss, mj |-> mj,
     ns |-> ns, na |-> na, nr |-> nr, res |-> res]))
=============================================================================
