---------------------------- MODULE MCInitStep ----------------------------
EXTENDS InitStep
MCZero == 1000
S0 == {MCZero, -30, -3, 0, 5}
S1 == {MCZero, -60, -20, -2, 0, 3, 9}
S2 == {MCZero, -60, -9, 0, 4, 12}
===========================================================================
