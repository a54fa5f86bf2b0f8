---- MODULE RealTimeGen ----
EXTENDS RealTime, MachineGen
====
