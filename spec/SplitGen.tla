---- MODULE SplitGen ----
EXTENDS Split, MachineGen
====
