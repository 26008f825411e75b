---- MODULE P30T ----
EXTENDS P30, TM
====
