---- MODULE P06T ----
EXTENDS P06, TM
====
