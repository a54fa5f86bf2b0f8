---- MODULE SpecEstTrace ----
EXTENDS SpecEst, MachineTrace
====
