---- MODULE P29T ----
EXTENDS P29, TM
====
