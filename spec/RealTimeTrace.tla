---- MODULE RealTimeTrace ----
EXTENDS RealTime, MachineTrace
====
