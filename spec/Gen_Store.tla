------------------------------ MODULE Gen_Store ------------------------------
EXTENDS MC_Store
GNext == FALSE /\ UNCHANGED vars
=============================================================================
