---- MODULE P09T ----
EXTENDS P09, TM
====
