---- MODULE P20T ----
EXTENDS P20, TM
====
