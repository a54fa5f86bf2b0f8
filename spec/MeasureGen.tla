---- MODULE MeasureGen ----
EXTENDS Measure, MachineGen
====
