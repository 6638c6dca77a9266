---- MODULE Gen_AccessBad ----
EXTENDS Gen_Access
====
