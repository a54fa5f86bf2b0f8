---- MODULE TransfTrace ----
EXTENDS Transf, MachineTrace
====
