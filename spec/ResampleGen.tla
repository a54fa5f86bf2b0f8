---- MODULE ResampleGen ----
EXTENDS Resample, MachineGen
====
