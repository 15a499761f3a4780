-------------------------------- MODULE Sde --------------------------------
(* One step of a method for stochastic differential equations               *)
(*     dy = f(t, y) dt + g(t, y) dw                                           *)
(* in terms of rooted trees: colour 1 is the drift, colours 2.. the noises.   *)
(* As in Trees.tla a tree [kids]_c is a component  dy = (prod of kids) dx_c   *)
(* of a triangular system, but time weighs two and noise weighs one           *)
(* (w ~ sqrt(h)), and the coordinate of a tree depends on the path:           *)
(*   - along a smooth path it is an ordinary (Stratonovich) integral, computed *)
(*     here exactly for paths that are linear between integers;               *)
(*   - for a Brownian path its mean follows from the generator.               *)
(* A method of strong order p must reproduce all trees of weight <= 2p along   *)
(* every path, and those of weight 2p + 1 on average.                         *)
EXTENDS Levy, TLC, Json, SequencesExt

CONSTANTS Noises,    \* number of driving noises
          MaxWeight,
          Values,    \* values of the paths
          Durations

VARIABLES cat, n, path

vars == <<cat, n, path>>

Wt(c) == IF c = 1 THEN 2 ELSE 1
RECURSIVE ProdSeq(_)
ProdSeq(s) == IF s = <<>> THEN 1 ELSE Head(s) * ProdSeq(Tail(s))

RECURSIVE Bags(_, _, _)
Bags(c, m, k) ==
  IF m = 0 THEN {<<>>}
  ELSE UNION { {<<i>> \o s : s \in Bags(c, m - c[i].weight, i)} : i \in {j \in 1..k : c[j].weight <= m} }

Lcm(m) == CASE m = 1 -> 1 [] m = 2 -> 2 [] m = 3 -> 6 [] m = 4 -> 12 [] OTHER -> 60
Size(c, kids) == 1 + Sum(1..Len(kids), LAMBDA i : c[kids[i]].size)
Tree(c, col, kids) ==
  [colour |-> col, kids |-> kids, size |-> Size(c, kids),
   weight |-> Wt(col) + Sum(1..Len(kids), LAMBDA i : c[kids[i]].weight),
   den |-> Lcm(Size(c, kids)) * ProdSeq([i \in 1..Len(kids) |-> c[kids[i]].den])]

New(c, wt) == UNION {{Tree(c, col, kids) : kids \in Bags(c, wt - Wt(col), Len(c))} : col \in {k \in 1..(1 + Noises) : Wt(k) <= wt}}

----------------------------------------------------------------------------
\* Coordinates along a piecewise linear path. Polynomials are sequences of integers (constant first), relative to
\* the tree's denominator.
Zeros(m) == [i \in 1..m |-> 0]
Mul(p, q) == [k \in 1..(Len(p) + Len(q) - 1) |->
                Sum({i \in 1..Len(p) : k - i + 1 \in 1..Len(q)}, LAMBDA i : p[i] * q[k - i + 1])]
RECURSIVE MulAll(_)
MulAll(ps) == IF ps = <<>> THEN <<1>> ELSE Mul(Head(ps), MulAll(Tail(ps)))
At1(p) == Sum(1..Len(p), LAMBDA i : p[i])

\* value at the start of the stretch, rate of the driver on it, product of the kids (relative to den / Lcm)
Integrate(start, rate, p, lcm) == <<start>> \o [i \in 1..Len(p) |-> rate * p[i] * (lcm \div i)]

\* vals[i]: value of tree i (times den) at the start of the stretch; rates[c]: d x_c on it. Trees in catalogue order.
RECURSIVE Stretch(_, _, _, _)
Stretch(c, vals, rates, done) ==
  IF Len(done) = Len(c) THEN done
  ELSE LET i == Len(done) + 1
           t == c[i]
           p == MulAll([j \in 1..Len(t.kids) |-> done[t.kids[j]]])
       IN  Stretch(c, vals, rates, Append(done, Integrate(vals[i], rates[t.colour], p, Lcm(t.size))))

RECURSIVE Along(_, _, _, _)
\* ws: one path per noise
Along(c, ws, k, vals) ==
  IF k = Len(ws[1]) THEN vals
  ELSE LET rates == <<1>> \o [j \in 1..Len(ws) |-> ws[j][k + 1] - ws[j][k]]
           ps == Stretch(c, vals, rates, <<>>)
       IN  Along(c, ws, k + 1, [i \in 1..Len(c) |-> At1(ps[i])])
Coords(c, ws) == Along(c, ws, 1, Zeros(Len(c)))

----------------------------------------------------------------------------
\* Means over Brownian paths: A monomial is a sequence of trees (with multiplicity); the generator replaces a drift
\* root by its kids, and a pair of equal noise roots (half of it) likewise. In the Stratonovich sense the second of
\* the pair may be one that the first uncovered.
Without(f, i) == [k \in 1..(Len(f) - 1) |-> IF k < i THEN f[k] ELSE f[k + 1]]
Uncover(c, f, i) == Without(f, i) \o c[f[i]].kids
WeightOf(c, f) == Sum(1..Len(f), LAMBDA i : c[f[i]].weight)

RECURSIVE Gen(_, _, _)
\* (2 L)^m applied to the monomial, at zero, where 2m is its weight
Gen(c, f, ito) ==
  IF f = <<>> THEN 1
  ELSE IF WeightOf(c, f) % 2 = 1 THEN 0
  ELSE  Sum({i \in 1..Len(f) : c[f[i]].colour = 1}, LAMBDA i : 2 * Gen(c, Uncover(c, f, i), ito))
      + Sum({i \in 1..Len(f) : c[f[i]].colour # 1}, LAMBDA i :
          LET g == Uncover(c, f, i)
              col == c[f[i]].colour
              \* (the others come first in g)
              second == {j \in 1..Len(g) : c[g[j]].colour = col /\ (~ito \/ j < Len(f))}
          IN  Sum(second, LAMBDA j : Gen(c, Uncover(c, g, j), ito)))
Fact(m) == IF m <= 1 THEN 1 ELSE IF m = 2 THEN 2 ELSE IF m = 3 THEN 6 ELSE 24
Pow2(m) == IF m = 0 THEN 1 ELSE IF m = 1 THEN 2 ELSE IF m = 2 THEN 4 ELSE IF m = 3 THEN 8 ELSE 16
\* mean = num / den * h^(weight/2)
MeanNum(c, i, ito) == Gen(c, <<i>>, ito)
MeanDen(c, i) == LET m == c[i].weight \div 2 IN Pow2(m) * Fact(m)

----------------------------------------------------------------------------
Paths == UNION {{<<0>> \o p : p \in [1..d -> Values]} : d \in Durations}
NoPath == <<>>

Init == cat = <<>> /\ n = 0 /\ path = NoPath
Grow == n < MaxWeight /\ n' = n + 1 /\ cat' = cat \o SetToSeq(New(cat, n + 1)) /\ path' = path
\* drive with some path (the second noise, if there is one, runs the path backwards)
Drive == n = MaxWeight /\ path = NoPath /\ path' \in {p \in Paths : TRUE} /\ UNCHANGED <<cat, n>>
Spec == Init /\ [][Grow \/ Drive]_vars

Driven == path # NoPath
Drivers == IF Noises = 1 THEN <<path>> ELSE <<path, Reverse(path)>>
Val == Coords(cat, Drivers)

\* what the low-weight trees are: functions of duration, increment and space-time area alone (scalar noise)
Closed(i) ==
  LET t == cat[i]  h == Dur(path)  W == Inc(path)  s == SH(path)
      k(j) == cat[t.kids[j]]
      m == Len(t.kids)
  IN CASE t.weight = 1 -> [num |-> W, den |-> 1]
       [] t.weight = 2 /\ t.colour = 1 -> [num |-> h, den |-> 1]
       [] t.weight = 2 /\ t.colour = 2 -> [num |-> W * W, den |-> 2]
       [] t.weight = 3 /\ t.colour = 1 -> [num |-> h * W + s, den |-> 2]                   \* h (W/2 + H)
       [] t.weight = 3 /\ t.colour = 2 /\ m = 1 /\ k(1).colour = 1 -> [num |-> h * W - s, den |-> 2]  \* h (W/2 - H)
       [] t.weight = 3 /\ t.colour = 2 /\ m = 1 /\ k(1).colour = 2 -> [num |-> W * W * W, den |-> 6]
       [] t.weight = 3 /\ t.colour = 2 /\ m = 2 -> [num |-> W * W * W, den |-> 3]
Determined == (Driven /\ Noises = 1) => LET v == Val IN
  \A i \in 1..Len(cat) : cat[i].weight <= 3 => v[i] * Closed(i).den = Closed(i).num * cat[i].den

\* the product rule: y_a y_b = y_[..a..b] + y_[..b..a] (Butcher product), seen on two noise leaves
Rules == Driven => (ReverseRule(path) /\ RefineRule(path) /\ (Dur(path) > 1 => \A a \in 1..(Dur(path) - 1) :
            ChenRule(Part(path, 0, a), Part(path, a, Dur(path))) /\ ChenK(Part(path, 0, a), Part(path, a, Dur(path)))
            /\ Join(Part(path, 0, a), Part(path, a, Dur(path))) = path))

\* means: odd weights vanish; (Stratonovich) w^2/2, (Ito) (w^2 - h)/2
KnownMeans == n = MaxWeight => \A i \in 1..Len(cat) :
  LET t == cat[i] IN
    /\ t.weight % 2 = 1 => MeanNum(cat, i, TRUE) = 0 /\ MeanNum(cat, i, FALSE) = 0
    /\ t.weight = 2 /\ t.colour = 1 => MeanNum(cat, i, FALSE) = MeanDen(cat, i)
    /\ t.weight = 2 /\ t.colour # 1 => LET same == cat[t.kids[1]].colour = t.colour IN
          MeanNum(cat, i, TRUE) = 0 /\ 2 * MeanNum(cat, i, FALSE) = (IF same THEN MeanDen(cat, i) ELSE 0)
WellFounded == \A i \in 1..Len(cat) : \A j \in 1..Len(cat[i].kids) : cat[i].kids[j] < i

EmitCat == (n = MaxWeight /\ ~Driven) => PrintT("BEHAVIOUR " \o ToJson(
  [noises |-> Noises, trees |-> [i \in 1..Len(cat) |-> [colour |-> cat[i].colour, kids |-> cat[i].kids, weight |-> cat[i].weight,
     strat |-> <<MeanNum(cat, i, FALSE), MeanDen(cat, i)>>, ito |-> <<MeanNum(cat, i, TRUE), MeanDen(cat, i)>>]]]))
EmitPath == Driven => PrintT("BEHAVIOUR " \o ToJson(
  [h |-> Dur(path), w |-> [j \in 1..Noises |-> Inc(Drivers[j])], sh |-> [j \in 1..Noises |-> SH(Drivers[j])],
   sk |-> [j \in 1..Noises |-> SK(Drivers[j])], path |-> path,
   val |-> LET v == Val IN [i \in 1..Len(cat) |-> <<v[i], cat[i].den>>]]))
=============================================================================
