---- MODULE GenerGen ----
EXTENDS Gener, MachineGen
====
