------------------------------ MODULE MCInterp ------------------------------
EXTENDS Interp
MCValues == {Missing, QI(0), QI(3), QI(-4)}
MCValues3 == {Missing, QI(0), QI(3)}
MCStarts == {Missing, QI(1)}
MCSlopes == {Missing, QI(2)}
MCGaps == {1, 2}
MCGaps1 == {1}
=============================================================================
