---- MODULE P24T ----
EXTENDS P24, TM
====
