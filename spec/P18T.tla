---- MODULE P18T ----
EXTENDS P18, TM
====
