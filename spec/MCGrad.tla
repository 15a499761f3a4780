------------------------------- MODULE MCGrad -------------------------------
EXTENDS Grad
Acc(f) == [accept |-> TRUE, factor |-> f]
Rej == [accept |-> FALSE, factor |-> Q(1, 2)]
One == QI(1)
MCScripts == {<<Acc(One), Acc(One), Acc(One), Acc(One), Acc(One)>>, <<Rej, Acc(One), Acc(QI(2)), Acc(One), Acc(One)>>,
              <<Acc(QI(2)), Rej, Acc(One), Rej, Acc(QI(2)), Acc(One)>>, <<Rej, Rej, Acc(QI(3)), Acc(QI(2)), Acc(One)>>}
MCSolvers == {"Euler", "Heun", "Midpoint", "ImplicitEuler", "LeapfrogMidpoint", "ReversibleHeun"}
MCFields == {"lin", "quad"}
MCY0s == {QI(1), QI(-2)}
MCAs == {QI(-1), Q(1, 2)}
MCT0 == QI(0)
MCT1s == {Q(5, 2), Q(15, 4)}
MCDt0s == {One, Q(1, 2)}
MCQueries == {Q(1, 4), Q(5, 4)}
MCLevels == {NoLevel, Q(1, 4), Q(-5, 4)}
=============================================================================
