---- MODULE P26T ----
EXTENDS P26, TM
====
