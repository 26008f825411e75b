---- MODULE P12T ----
EXTENDS P12, TM
====
