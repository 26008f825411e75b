---- MODULE P05T ----
EXTENDS P05, TM
====
