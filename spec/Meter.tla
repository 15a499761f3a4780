------------------------------- MODULE Meter -------------------------------
(* Progress meters: what is shown of how far a solve, or a batch of solves, has come.   *)
(* Progress is in sixteenths of the way. Solves of a batch go on together, each making an   *)
(* attempt at a time, until all have arrived or the budget of attempts is used up.             *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, TLC, Json

CONSTANTS Batches,     \* how many solves at once
          Moves,       \* sixteenths an attempt may go; 0: rejected
          Budget,      \* attempts allowed, by size of the batch
          Increases,   \* text: least progress worth a line (never a tie: odd, or 0)
          Refreshes    \* bar: attempts per refresh

VARIABLES n, kind, par, pos, seen, att, lines, log, closed
vars == <<n, kind, par, pos, seen, att, lines, log, closed>>

Full == 16
Slowest(p) == Min({p[i] : i \in 1..n})
Init == /\ n \in Batches
        /\ kind \in {"text", "bar"}
        /\ par \in IF kind = "text" THEN Increases ELSE Refreshes
        /\ pos = [i \in 1..n |-> 0] /\ seen = pos
        /\ att = 0 /\ lines = <<0>> /\ log = <<>> /\ closed = FALSE

Going == (\E i \in 1..n : pos[i] < Full) /\ att < Budget[n]
Attempt ==
  /\ ~closed /\ Going
  /\ \E mv \in [1..n -> Moves] :
       /\ \A i \in 1..n : pos[i] = Full => mv[i] = 0
       \* what is left is never overshot; the attempt after a rejected one does not reach the end
       /\ \A i \in 1..n : (mv[i] # 0 /\ att > 0 /\ Last(log)[i] = 0) => pos[i] + mv[i] < Full
       /\ LET p == [i \in 1..n |-> Min({Full, pos[i] + mv[i]})]
              show == IF kind = "text" THEN \A i \in 1..n : p[i] - seen[i] > par \/ p[i] = Full ELSE att % par = 0
          IN /\ pos' = p
             /\ seen' = IF show THEN p ELSE seen
             /\ lines' = IF show THEN Append(lines, Slowest(p)) ELSE lines
             /\ log' = Append(log, mv)
  /\ att' = att + 1
  /\ UNCHANGED <<n, kind, par, closed>>
Close ==
  /\ ~closed /\ ~Going
  /\ closed' = TRUE
  /\ lines' = IF kind = "text" /\ Last(lines) = Full THEN lines ELSE Append(lines, Full)
  /\ UNCHANGED <<n, kind, par, pos, seen, att, log>>
Next == Attempt \/ Close
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

----------------------------------------------------------------------------
Bounds == lines[1] = 0 /\ (closed => Last(lines) = Full)
Monotone == \A i \in 1..Len(lines) - 1 : lines[i] <= lines[i + 1]
\* never ahead of the slowest; some solve has come no further than the least increase since the last line
Prompt == ~closed => /\ Last(lines) <= Slowest(pos)
                     /\ kind = "text" => \E i \in 1..n : pos[i] - seen[i] <= par
\* no more often than worth it
Sparse == (kind = "text" /\ n = 1) => \A i \in 1..Len(lines) - 1 :
            lines[i + 1] - lines[i] > par \/ (lines[i + 1] = Full /\ i + 1 = Len(lines))
Regular == kind = "bar" => Len(lines) = 1 + (att + par - 1) \div par + (IF closed THEN 1 ELSE 0)
\* every line was true when it was shown
Where(k) == Min({Min({Full, FoldLeft(LAMBDA a, m : Min({Full, a + m[i]}), 0, SubSeq(log, 1, k))}) : i \in 1..n})
Truthful == \A i \in 1..Len(lines) : (closed /\ i = Len(lines)) \/ \E k \in 0..att : lines[i] = Where(k)
Closes == <>closed
Emit == closed => PrintT("BEHAVIOUR " \o ToJson([n |-> n, kind |-> kind, par |-> par, log |-> log, lines |-> lines, pos |-> pos]))
=============================================================================
