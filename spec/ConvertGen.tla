---- MODULE ConvertGen ----
EXTENDS Convert, MachineGen
====
