---- MODULE EffectsTrace ----
EXTENDS Effects, MachineTrace
====
