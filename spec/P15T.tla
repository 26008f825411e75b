---- MODULE P15T ----
EXTENDS P15, TM
====
