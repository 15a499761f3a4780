----------------------------- MODULE MCTableau -----------------------------
EXTENDS Tableau
MCKinds == {"erk", "dirk", "sdirk", "esdirk"}
MCCoeffs == {-1, 0, 1, 2}
=============================================================================
