------------------------------- MODULE MCSde -------------------------------
EXTENDS Sde
MCValues == -2..3
MCFew == {-1, 0, 2}
============================================================================
