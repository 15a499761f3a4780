------------------------------ MODULE Methods ------------------------------
(* The catalogue of ODE methods and what each promises, on top of Trees.    *)
(*   order   reproduces every tree with up to this many nodes               *)
(*   err     its error estimate vanishes on every tree with fewer nodes     *)
(*           than this, and not on all trees with exactly this many         *)
(*           (0: offers no error estimate)                                  *)
(*   dense   its interpolation reproduces (theta h)^|tau| / gamma(tau) at    *)
(*           every theta for trees with up to this many nodes               *)
(*   colours 2: one explicit and one implicit vector field                  *)
EXTENDS Trees

\* est: the first order at which the estimate is non-zero (Sil3 understates it)
M(o, e, d, c) == [order |-> o, err |-> e, est |-> e, dense |-> d, colours |-> c]

Methods == [
  Euler           |-> M(1, 0, 1, 1),
  Heun            |-> M(2, 2, 2, 1),
  Midpoint        |-> M(2, 2, 1, 1),
  Ralston         |-> M(2, 2, 1, 1),
  Bosh3           |-> M(3, 3, 3, 1),
  Tsit5           |-> M(5, 5, 4, 1),
  Dopri5          |-> M(5, 5, 4, 1),
  Dopri8          |-> M(8, 8, 5, 1),
  ReversibleHeun  |-> M(2, 2, 1, 1),
  HalfEuler       |-> M(1, 2, 1, 1),
  HalfHeun        |-> M(2, 3, 2, 1),
  HalfBosh3       |-> M(3, 4, 3, 1),
  ImplicitEuler   |-> M(1, 2, 1, 1),
  Kvaerno3        |-> M(3, 3, 3, 1),
  Kvaerno4        |-> M(4, 4, 3, 1),
  Kvaerno5        |-> M(5, 5, 3, 1),
  KenCarp3        |-> M(3, 3, 2, 2),
  KenCarp4        |-> M(4, 4, 3, 2),
  KenCarp5        |-> M(5, 5, 3, 2),
  Sil3            |-> [M(2, 2, 2, 2) EXCEPT !.est = 3] ]

\* The low-order methods are pinned completely: their Butcher tableaus, over a common
\* denominator. Weight(tab, i) is the (numerator of the) elementary weight of tree i.
Tab(den, a, b) == [den |-> den, a |-> a, b |-> b]
Tableaus == [
  Euler    |-> Tab(1, << <<0>> >>, <<1>>),
  Heun     |-> Tab(2, << <<0, 0>>, <<2, 0>> >>, <<1, 1>>),
  Midpoint |-> Tab(2, << <<0, 0>>, <<1, 0>> >>, <<0, 2>>),
  Ralston  |-> Tab(12, << <<0, 0>>, <<8, 0>> >>, <<3, 9>>),
  ImplicitEuler |-> Tab(1, << <<1>> >>, <<1>>),
  ReversibleHeun |-> Tab(2, << <<0, 0>>, <<2, 0>> >>, <<1, 1>>) ]

Dot(u, v) == FoldSet(LAMBDA k, acc : acc + u[k] * v[k], 0, 1..Len(u))

RECURSIVE Stage(_, _, _)
\* internal weights: g_tau at stage s, times den^(|tau|-1)
Stage(tab, i, s) ==
  Prod([k \in 1..Len(cat[i].kids) |->
          Dot(tab.a[s], [r \in 1..Len(tab.b) |-> Stage(tab, cat[i].kids[k], r)])])
Weight(tab, i) == Dot(tab.b, [s \in 1..Len(tab.b) |-> Stage(tab, i, s)])
\* i.e. y_tau after one unit step is Weight / den^|tau|
WeightQ(tab, i) == <<Weight(tab, i), Pow(tab.den, cat[i].order)>>

PinnedOrder == 5
Pinned == [m \in DOMAIN Tableaus |->
            [i \in {j \in 1..Len(cat) : cat[j].order <= PinnedOrder} |-> WeightQ(Tableaus[m], i)]]

\* the tableaus above have the orders claimed above, and no more
RightOrders == n = MaxOrder /\ Colours = 1 =>
  \A m \in DOMAIN Tableaus :
    LET good(i) == LET w == WeightQ(Tableaus[m], i) IN w[1] * cat[i].gamma = w[2]
        p == Methods[m].order
    IN  /\ \A i \in 1..Len(cat) : cat[i].order <= p => good(i)
        /\ \E i \in 1..Len(cat) : cat[i].order = p + 1 /\ ~good(i)

EmitMethods == n = MaxOrder /\ Colours = 1 =>
  PrintT("BEHAVIOUR " \o ToJson([methods |-> Methods, pinned |-> Pinned]))
============================================================================
