---- MODULE P03T ----
EXTENDS P03, TM
====
