----------------------------- MODULE MCLangevin -----------------------------
EXTENDS Langevin
\* 2 gamma u is a square
Frictions == {[gamma |-> <<QI(2), Q(1, 2)>>, u |-> <<QI(1), QI(1)>>, sigma |-> <<QI(2), QI(1)>>],
              [gamma |-> <<Q(1, 2), QI(2)>>, u |-> <<QI(4), Q(1, 4)>>, sigma |-> <<QI(2), QI(1)>>]}
Forces == {<<<<<<QI(1), <<>>>>, <<QI(1), <<1>>>>, <<QI(-1), <<2>>>>>>, <<<<QI(1), <<1, 2>>>>, <<QI(-2), <<>>>>>>>>,
           <<<<<<QI(1), <<2, 2>>>>, <<Q(1, 2), <<1>>>>>>, <<<<QI(1), <<1, 1, 2>>>>, <<QI(3), <<2>>>>>>>>,
           <<<<>>, <<>>>>}
Starts == {<<<<1, -1>>, <<1, 2>>>>, <<<<0, 2>>, <<-2, 0>>>>, <<<<2, 1>>, <<-1, -1>>>>}
MCProblems == {[gamma |-> c.gamma, u |-> c.u, sigma |-> c.sigma, f |-> f, x0 |-> s[1], v0 |-> s[2]] : c \in Frictions, f \in Forces, s \in Starts}
MCRates == {-1, 0, 2}
MCFew == {-1, 2}
MCLengths == {1, 2, 3}
MCDirs == {1, -1}
=============================================================================
