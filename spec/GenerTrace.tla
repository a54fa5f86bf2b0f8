---- MODULE GenerTrace ----
EXTENDS Gener, MachineTrace
====
