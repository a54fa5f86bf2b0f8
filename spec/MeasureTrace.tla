---- MODULE MeasureTrace ----
EXTENDS Measure, MachineTrace
====
