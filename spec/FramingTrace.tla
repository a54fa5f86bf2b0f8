---- MODULE FramingTrace ----
EXTENDS Framing, MachineTrace
====
