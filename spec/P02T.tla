---- MODULE P02T ----
EXTENDS P02, TM
====
