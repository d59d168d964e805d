------------------------------ MODULE MC_Calls ------------------------------
EXTENDS Calls
=============================================================================
