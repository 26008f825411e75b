---- MODULE P17T ----
EXTENDS P17, TM
====
