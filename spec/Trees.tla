------------------------------- MODULE Trees -------------------------------
(* Rooted trees with coloured nodes, and what they say about one step of a  *)
(* numerical method.                                                        *)
(*                                                                          *)
(* A tree tau = [kids]_c stands for one component of an ordinary             *)
(* differential equation                                                    *)
(*     y_tau' = prod over kids k of y_k        (driven by field number c)   *)
(* with y_tau(0) = 0. Its exact solution is y_tau(t) = t^|tau| / gamma(tau). *)
(* A one-step method has order p iff after one step of length h it          *)
(* reproduces h^|tau|/gamma(tau) for every tree with |tau| <= p (Butcher);   *)
(* with several colours this is the order condition of a partitioned        *)
(* (e.g. implicit-explicit) method.                                         *)
(*                                                                          *)
(* The state machine grows the catalogue one order at a time. A tree is a   *)
(* record; its kids are earlier catalogue entries, listed non-increasingly. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, SequencesExt, FiniteSetsExt

CONSTANTS Colours,   \* number of vector fields
          MaxOrder   \* trees up to this many nodes

VARIABLES cat, n

vars == <<cat, n>>

RECURSIVE Prod(_), Fact(_), Pow(_, _)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
Fact(k) == IF k = 0 THEN 1 ELSE k * Fact(k - 1)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)

RECURSIVE Bags(_, _, _)
\* non-increasing sequences of catalogue entries <= k with m nodes altogether
Bags(c, m, k) ==
  IF m = 0 THEN {<<>>}
  ELSE UNION { {<<i>> \o s : s \in Bags(c, m - c[i].order, i)} : i \in {j \in 1..k : c[j].order <= m} }

\* symmetry coefficient
Sigma(c, kids) ==
  LET ids == {kids[i] : i \in 1..Len(kids)}
      mult(k) == Cardinality({i \in 1..Len(kids) : kids[i] = k})
  IN  LET s == SetToSeq({<<k, Fact(mult(k)) * Pow(c[k].sigma, mult(k))>> : k \in ids})
      IN Prod([i \in 1..Len(s) |-> s[i][2]])

Tree(c, col, ord, kids) ==
  [order |-> ord, colour |-> col, kids |-> kids,
   gamma |-> ord * Prod([i \in 1..Len(kids) |-> c[kids[i]].gamma]),
   sigma |-> Sigma(c, kids)]

New(c, ord) == {Tree(c, col, ord, kids) : kids \in Bags(c, ord - 1, Len(c)), col \in 1..Colours}

Init == cat = <<>> /\ n = 0
Grow == n < MaxOrder /\ n' = n + 1 /\ cat' = cat \o SetToSeq(New(cat, n + 1))
Spec == Init /\ [][Grow]_vars /\ WF_vars(Grow)

----------------------------------------------------------------------------
OfOrder(k) == {i \in 1..Len(cat) : cat[i].order = k}

\* kids are smaller, so the system of equations is triangular
WellFounded == \A i \in 1..Len(cat) : \A j \in 1..Len(cat[i].kids) : cat[i].kids[j] < i

\* y_tau = t^|tau|/gamma solves its equation: |tau|/gamma = prod of kids' 1/gamma
Solves == \A i \in 1..Len(cat) :
  LET t == cat[i] IN
    /\ t.gamma = t.order * Prod([j \in 1..Len(t.kids) |-> cat[t.kids[j]].gamma])
    /\ \A j, k \in 1..Len(t.kids) : j < k => t.kids[j] >= t.kids[k]

SumOver(S) == FoldSet(LAMBDA i, acc : acc + Fact(cat[i].order) \div (cat[i].sigma * cat[i].gamma), 0, S)

\* The number of increasing labellings of all trees of order k is (k-1)! (times colourings):
\* no tree is missing and none is listed twice.
Complete == \A k \in 1..n :
  /\ \A i \in OfOrder(k) : Fact(k) % (cat[i].sigma * cat[i].gamma) = 0
  /\ SumOver(OfOrder(k)) = Fact(k - 1) * Pow(Colours, k)

Emit == n = MaxOrder => PrintT("BEHAVIOUR " \o ToJson([colours |-> Colours, trees |-> cat]))
Done == <>(n = MaxOrder)
============================================================================
