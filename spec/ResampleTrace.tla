---- MODULE ResampleTrace ----
EXTENDS Resample, MachineTrace
====
