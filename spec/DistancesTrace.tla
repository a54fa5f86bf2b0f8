---- MODULE DistancesTrace ----
EXTENDS Distances, MachineTrace
====
