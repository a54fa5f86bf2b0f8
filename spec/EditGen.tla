---- MODULE EditGen ----
EXTENDS Edit, MachineGen
====
