---- MODULE FramingGen ----
EXTENDS Framing, MachineGen
====
