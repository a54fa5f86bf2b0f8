---- MODULE BandsGen ----
EXTENDS Bands, MachineGen
====
