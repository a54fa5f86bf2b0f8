---- MODULE DistancesGen ----
EXTENDS Distances, MachineGen
====
