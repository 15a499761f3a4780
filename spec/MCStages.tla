------------------------------ MODULE MCStages ------------------------------
EXTENDS Stages
MCDts == {2, 4, 8}
=============================================================================
