---- MODULE ConvertTrace ----
EXTENDS Convert, MachineTrace
====
