---- MODULE EditTrace ----
EXTENDS Edit, MachineTrace
====
