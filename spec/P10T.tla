---- MODULE P10T ----
EXTENDS P10, TM
====
