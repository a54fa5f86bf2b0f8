---- MODULE FilterStreamTrace ----
EXTENDS FilterStream, MachineTrace
====
