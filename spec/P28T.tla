---- MODULE P28T ----
EXTENDS P28, TM
====
