---- MODULE LevelsGen ----
EXTENDS Levels, MachineGen
====
