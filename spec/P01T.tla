---- MODULE P01T ----
EXTENDS P01, TM
====
