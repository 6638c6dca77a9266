------------------------------- MODULE Gen_Uri -------------------------------
EXTENDS MC_Uri
GInit == Init
GNext == FALSE /\ UNCHANGED vars
=============================================================================
