---- MODULE BandsTrace ----
EXTENDS Bands, MachineTrace
====
