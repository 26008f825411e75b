---- MODULE P23T ----
EXTENDS P23, TM
====
