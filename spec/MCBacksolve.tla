---------------------------- MODULE MCBacksolve ----------------------------
EXTENDS Backsolve
Acc(f) == [accept |-> TRUE, factor |-> f]
Rej == [accept |-> FALSE, factor |-> Q(1, 2)]
One == QI(1)
MCScripts == {<<Acc(One), Acc(One), Acc(One), Acc(One), Acc(One), Acc(One)>>, <<Rej, Acc(One), Acc(QI(2)), Acc(One), Rej, Acc(One)>>,
              <<Acc(QI(2)), Rej, Acc(One), Rej, Acc(QI(2)), Acc(One)>>}
MCSolvers == {"Euler", "Heun", "LeapfrogMidpoint", "ReversibleHeun"}
MCFields == {"lin", "quad"}
MCY0s == {QI(1), QI(-2)}
MCPs == {QI(-1), Q(1, 2)}
MCT0 == QI(0)
MCT1 == QI(2)
MCDt0s == {One, Q(1, 2)}
S(a, ts, b) == [t0 |-> a, ts |-> ts, t1 |-> b]
MCSaves == {S(FALSE, <<>>, TRUE), S(TRUE, <<>>, TRUE), S(TRUE, <<>>, FALSE), S(FALSE, <<One>>, FALSE), S(FALSE, <<Q(1, 2), Q(3, 2)>>, TRUE),
            S(TRUE, <<Q(1, 2), Q(3, 2)>>, FALSE), S(TRUE, <<Q(3, 4)>>, TRUE), S(FALSE, <<QI(0), One, QI(2)>>, FALSE), S(FALSE, <<One, One, QI(2)>>, TRUE),
            S(TRUE, <<QI(0), One>>, FALSE)}
MCCotangents == {<<QI(1), QI(-2), QI(3), QI(1), QI(2)>>}
MCSame == {[own |-> FALSE, solver |-> "Euler", script |-> <<>>, dt0 |-> One]}
MCOwn == {[own |-> TRUE, solver |-> s, script |-> x, dt0 |-> d] : s \in {"Heun", "ReversibleHeun"}, d \in {Q(1, 2), Q(3, 4)},
          x \in {<<Acc(One), Acc(QI(2)), Rej, Acc(One), Acc(One), Acc(One)>>, <<Rej, Acc(One), Acc(One), Acc(QI(2)), Acc(One), Acc(One)>>}}
MCFewSolvers == {"Euler", "LeapfrogMidpoint"}
MCOneY0 == {QI(1)}
MCNone == {<<QI(0), QI(0), QI(0), QI(0), QI(0)>>}
=============================================================================
