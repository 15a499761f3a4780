------------------------------ MODULE Tableau ------------------------------
(* Runge-Kutta methods somebody else wrote: any tableau, executed as written.  *)
(*                                                                          *)
(* First the trees are grown (Trees), then a tableau is put together row by     *)
(* row, coefficients in halves, of one of the kinds                           *)
(*   erk     strictly lower triangular                                       *)
(*   dirk    any diagonal                                                    *)
(*   sdirk   constant diagonal                                               *)
(*   esdirk  constant diagonal, first stage explicit                          *)
(* and the weights of all trees are its meaning: after one step of length h     *)
(* component tau is weight * h^|tau|, and likewise for the error estimate.      *)
EXTENDS Methods

CONSTANTS TabKinds, Coeffs, MaxStages

VARIABLES tab, phase

tvars == <<cat, n, tab, phase>>

DiagOk(k, s, d, a) ==
  CASE k = "erk" -> d = 0
    [] k = "sdirk" -> d # 0 /\ (s > 1 => d = a[1][1])
    [] k = "esdirk" -> IF s = 1 THEN d = 0 ELSE d # 0 /\ (s > 2 => d = a[2][2])
    [] k = "dirk" -> TRUE

RECURSIVE SumTo(_, _)
SumTo(f, m) == IF m = 0 THEN 0 ELSE f[m] + SumTo(f, m - 1)

TInit == Init /\ tab = [kind |-> "none"] /\ phase = "trees"
TGrow == phase = "trees" /\ Grow /\ UNCHANGED <<tab, phase>>
Choose == /\ phase = "trees" /\ n = MaxOrder
          /\ \E k \in TabKinds, s \in 2..MaxStages :
               tab' = [kind |-> k, stages |-> s, den |-> 2, a |-> <<>>, b |-> <<>>, e |-> <<>>]
          /\ phase' = "rows" /\ UNCHANGED <<cat, n>>
Row == /\ phase = "rows" /\ Len(tab.a) < tab.stages
       /\ LET s == Len(tab.a) + 1 IN
            \E low \in [1..s - 1 -> Coeffs], d \in Coeffs :
              /\ DiagOk(tab.kind, s, d, tab.a)
              /\ tab' = [tab EXCEPT !.a = Append(@, [j \in 1..tab.stages |-> IF j < s THEN low[j] ELSE IF j = s THEN d ELSE 0])]
       /\ UNCHANGED <<cat, n, phase>>
\* the weights add up to one, those of the error estimate to zero; often the last row is the solution
Solution == /\ phase = "rows" /\ Len(tab.a) = tab.stages
            /\ \E b \in [1..tab.stages -> Coeffs] :
                 SumTo(b, tab.stages) = 2 /\ tab' = [tab EXCEPT !.b = b]
            /\ phase' = "error" /\ UNCHANGED <<cat, n>>
SameAsLastRow == /\ phase = "rows" /\ Len(tab.a) = tab.stages /\ SumTo(tab.a[tab.stages], tab.stages) = 2
                 /\ tab' = [tab EXCEPT !.b = tab.a[tab.stages]]
                 /\ phase' = "error" /\ UNCHANGED <<cat, n>>
Error == /\ phase = "error"
         /\ \E e \in [1..tab.stages -> Coeffs] :
              /\ SumTo(e, tab.stages) = 0 /\ \E i \in 1..tab.stages : e[i] # 0
              /\ tab' = [tab EXCEPT !.e = e]
         /\ phase' = "done" /\ UNCHANGED <<cat, n>>
TNext == TGrow \/ Choose \/ Row \/ Solution \/ SameAsLastRow \/ Error
TSpec == TInit /\ [][TNext]_tvars

\* The solution is the last stage / the last slope is the next first slope, exactly when:
LastRowIsSolution == tab.b = tab.a[tab.stages]
Fsal == LastRowIsSolution /\ tab.a[1][1] = 0

\* if the last row is the solution then the solution weight of a tree is the one the last stage sees
LastStageSolution == (phase = "done" /\ LastRowIsSolution) =>
  \A i \in 1..Len(cat) : Weight(tab, i) = Dot(tab.a[tab.stages], [s \in 1..tab.stages |-> Stage(tab, i, s)])
Consistent == phase = "done" => Weight(tab, 1) = 2      \* order one
TEmit == phase = "done" =>
  PrintT("BEHAVIOUR " \o ToJson([tab |-> tab, fsal |-> Fsal, trees |-> cat,
    sol |-> [i \in 1..Len(cat) |-> WeightQ(tab, i)],
    err |-> [i \in 1..Len(cat) |-> WeightQ([tab EXCEPT !.b = tab.e], i)]]))
=============================================================================
