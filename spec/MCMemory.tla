------------------------------ MODULE MCMemory ------------------------------
EXTENDS Memory
MCKinds == {"nothing", "slope", "previous", "shadow"}
MCDts == {1, 2}
MCTicks == 1..4
=============================================================================
