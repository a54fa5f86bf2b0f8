---- MODULE FilterStreamGen ----
EXTENDS FilterStream, MachineGen
====
