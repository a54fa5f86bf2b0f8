---- MODULE BeamsTrace ----
EXTENDS Beams, MachineTrace
====
