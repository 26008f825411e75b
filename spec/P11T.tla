---- MODULE P11T ----
EXTENDS P11, TM
====
