---- MODULE SpecEstGen ----
EXTENDS SpecEst, MachineGen
====
