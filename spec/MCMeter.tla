------------------------------ MODULE MCMeter ------------------------------
EXTENDS Meter
MCBudget == <<6, 4, 3>>
=============================================================================
