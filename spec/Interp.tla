------------------------------- MODULE Interp -------------------------------
(* Turning (possibly incomplete) observations into a continuous path.          *)
(*                                                                          *)
(* Observations arrive one at a time; any of them may be missing. Two options:  *)
(* a value to use at the first time if that is missing, and whether values       *)
(* missing at the end repeat the last one. What is promised, for the data seen   *)
(* so far:                                                                   *)
(*   linear      gaps are bridged by straight lines                            *)
(*   rectilinear time advances with the data held, then the data moves           *)
(*   hermite     a cubic between neighbouring observations whose slope at an      *)
(*               observation is the slope of the chord reaching it (backward      *)
(*               differences), the first slope being given or the first chord     *)
(* Whatever has nothing on one side is unknown (NaN).                            *)
EXTENDS Rationals, Sequences, TLC, Json

CONSTANTS Values, Gaps, MaxLen, Starts, Slopes

VARIABLES ts, ys, opt

vars == <<ts, ys, opt>>

Missing == <<0, 0>>
NaN == Missing

Init == /\ ts = <<0>>
        /\ \E v \in Values : ys = <<v>>
        /\ \E f \in BOOLEAN, r \in Starts, d \in Slopes : opt = [fill |-> f, start |-> r, slope |-> d]
Observe == /\ Len(ts) < MaxLen
           /\ \E g \in Gaps, v \in Values : ts' = Append(ts, ts[Len(ts)] + g) /\ ys' = Append(ys, v)
           /\ UNCHANGED opt
Spec == Init /\ [][Observe]_vars

----------------------------------------------------------------------------
L == Len(ts)
Has(s, i) == s[i] # Missing
\* the first time, if asked to and needed, takes the given value
WithStart == [i \in 1..L |-> IF i = 1 /\ ~Has(ys, 1) /\ opt.start # Missing THEN opt.start ELSE ys[i]]
LastSeen(s, i) == {j \in 1..i : Has(s, j) /\ \A k \in (j + 1)..i : ~Has(s, k)}
NextSeen(s, i) == {j \in i..L : Has(s, j) /\ \A k \in i..(j - 1) : ~Has(s, k)}
The(S) == CHOOSE x \in S : TRUE
\* values missing at the end repeat the last one, if asked to
Filled == LET s == WithStart IN
  [i \in 1..L |-> IF ~Has(s, i) /\ opt.fill /\ NextSeen(s, i) = {} /\ LastSeen(s, i) # {} THEN s[The(LastSeen(s, i))] ELSE s[i]]

Chord(s, i, j) == QDiv(QSub(s[j], s[i]), QI(ts[j] - ts[i]))

\* the straight line through the neighbours of time t (in half ticks: t2) of interval i
LineAt(s, i, t2) ==
  LET A == LastSeen(s, i) B == NextSeen(s, i + 1) IN
    IF A = {} \/ B = {} THEN NaN
    ELSE LET a == The(A) b == The(B) IN QAdd(s[a], QMul(Chord(s, a, b), Q(t2 - 2 * ts[a], 2)))
SlopeOfLine(s, i) ==
  LET A == LastSeen(s, i) B == NextSeen(s, i + 1) IN
    IF A = {} \/ B = {} THEN NaN ELSE Chord(s, The(A), The(B))
LinearFill(s) == [i \in 1..L |-> IF Has(s, i) THEN s[i] ELSE
                    IF LastSeen(s, i) = {} \/ NextSeen(s, i) = {} THEN NaN
                    ELSE LET a == The(LastSeen(s, i)) b == The(NextSeen(s, i)) IN
                      QAdd(s[a], QMul(Chord(s, a, b), QI(ts[i] - ts[a])))]
Held(s) == [i \in 1..L |-> IF LastSeen(s, i) = {} THEN NaN ELSE s[The(LastSeen(s, i))]]
\* held values, with the replacement for everything missing at the start
HeldAll == [i \in 1..L |-> IF LastSeen(ys, i) = {} THEN opt.start ELSE ys[The(LastSeen(ys, i))]]
Rect == [ts |-> [k \in 1..2 * L - 1 |-> ts[k \div 2 + 1]], ys |-> [k \in 1..2 * L - 1 |-> HeldAll[(k + 1) \div 2]]]

\* slope at an observation a whose next observation is b
SlopeAt(s, a, b) ==
  LET P == IF a = 1 THEN {} ELSE LastSeen(s, a - 1) IN
    IF P = {} THEN (IF a = 1 /\ opt.slope # Missing THEN opt.slope ELSE Chord(s, a, b))
    ELSE Chord(s, The(P), a)
\* value and slope at time t2/2 of the cubic that covers interval i
Cubic(s, i, t2) ==
  LET A == LastSeen(s, i) B == NextSeen(s, i + 1) IN
    IF A = {} \/ B = {} THEN <<NaN, NaN>>
    ELSE LET a == The(A) b == The(B)
             D == QI(ts[b] - ts[a])
             u == QDiv(Q(t2 - 2 * ts[a], 2), D)         \* how far along
             d == QMul(SlopeAt(s, a, b), D)
             e == QSub(QSub(s[b], s[a]), d)            \* chord minus slope
             val == QAdd(s[a], QMul(u, QAdd(d, QMul(u, QSub(QMul(QI(2), e), QMul(u, e))))))
             der == QDiv(QAdd(d, QMul(u, QSub(QMul(QI(4), e), QMul(QI(3), QMul(u, e))))), D)
         IN <<val, der>>

----------------------------------------------------------------------------
(* What makes these the right definitions. *)
S == Filled
\* every observation is on the path, from both sides
Through == \A i \in 1..L - 1 :
  LET l == LineAt(S, i, 2 * ts[i]) r == LineAt(S, i, 2 * ts[i + 1])
      cl == Cubic(S, i, 2 * ts[i])[1] cr == Cubic(S, i, 2 * ts[i + 1])[1]
      known == l # NaN
  IN known => /\ (Has(S, i) => l = S[i] /\ cl = S[i])
              /\ (Has(S, i + 1) => r = S[i + 1] /\ cr = S[i + 1])
\* neighbouring pieces agree in value, and for the cubic in slope, wherever both are known
Smooth == \A i \in 1..L - 2 :
  LET t == 2 * ts[i + 1] IN
    (LineAt(S, i, t) # NaN /\ LineAt(S, i + 1, t) # NaN) =>
      /\ LineAt(S, i, t) = LineAt(S, i + 1, t)
      /\ Cubic(S, i, t) = Cubic(S, i + 1, t)
\* Causality: what is known on [i, i+1] once the next observation is in is never revised by later data
Causal == [][\A i \in 1..L - 1 :
   (~opt.fill /\ LineAt(Filled, i, 2 * ts[i]) # NaN) =>
      /\ LineAt(Filled, i, 2 * ts[i] + 1) = LineAt(Filled', i, 2 * ts[i] + 1)
      /\ Cubic(Filled, i, 2 * ts[i] + 1) = Cubic(Filled', i, 2 * ts[i] + 1)]_vars
Unfilled == [i \in 1..L |-> WithStart[i]]
\* asking for nothing fills nothing outside the observations
OnlyInside == (~opt.fill /\ opt.start = Missing) =>
  \A i \in 1..L : (\A j \in 1..i : ~Has(ys, j)) \/ (\A j \in i..L : ~Has(ys, j)) => LinearFill(S)[i] = NaN

Queries == [i \in 1..L - 1 |-> [k \in 1..2 * (ts[i + 1] - ts[i]) + 1 |->
             LET t2 == 2 * ts[i] + k - 1 IN
               [t2 |-> t2, line |-> LineAt(S, i, t2), slope |-> SlopeOfLine(S, i), cubic |-> Cubic(S, i, t2)]]]
\* (data without a single value is not specified)
Emit == (L = MaxLen /\ \E i \in 1..L : Has(ys, i)) =>
  PrintT("BEHAVIOUR " \o ToJson([ts |-> ts, ys |-> ys, opt |-> opt, linear |-> LinearFill(S), rect |-> Rect,
                                 held |-> Held(ys), heldstart |-> HeldAll, queries |-> Queries]))
=============================================================================
