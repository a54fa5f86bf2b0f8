---- MODULE LevelsTrace ----
EXTENDS Levels, MachineTrace
====
