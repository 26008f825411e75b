---- MODULE P25T ----
EXTENDS P25, TM
====
