---- MODULE P21T ----
EXTENDS P21, TM
====
