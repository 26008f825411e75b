---- MODULE P07T ----
EXTENDS P07, TM
====
