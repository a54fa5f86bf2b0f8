---- MODULE BeamsGen ----
EXTENDS Beams, MachineGen
====
