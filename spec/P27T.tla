---- MODULE P27T ----
EXTENDS P27, TM
====
