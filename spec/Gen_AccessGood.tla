---- MODULE Gen_AccessGood ----
EXTENDS Gen_Access
====
