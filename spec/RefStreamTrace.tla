---- MODULE RefStreamTrace ----
EXTENDS RefStream, MachineTrace
====
