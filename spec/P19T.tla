---- MODULE P19T ----
EXTENDS P19, TM
====
