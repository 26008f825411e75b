---- MODULE P16T ----
EXTENDS P16, TM
====
