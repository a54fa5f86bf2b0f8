---- MODULE TransfGen ----
EXTENDS Transf, MachineGen
====
