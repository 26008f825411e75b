---- MODULE P08T ----
EXTENDS P08, TM
====
