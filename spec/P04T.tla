---- MODULE P04T ----
EXTENDS P04, TM
====
