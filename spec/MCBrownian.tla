----------------------------- MODULE MCBrownian -----------------------------
EXTENDS Brownian
MCValues == {-1, 0, 2}
OneValue == {1}
=============================================================================
