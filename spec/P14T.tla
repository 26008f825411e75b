---- MODULE P14T ----
EXTENDS P14, TM
====
