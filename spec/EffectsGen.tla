---- MODULE EffectsGen ----
EXTENDS Effects, MachineGen
====
