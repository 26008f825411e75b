---- MODULE P13T ----
EXTENDS P13, TM
====
