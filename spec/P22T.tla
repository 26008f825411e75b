---- MODULE P22T ----
EXTENDS P22, TM
====
