---- MODULE SplitTrace ----
EXTENDS Split, MachineTrace
====
