---- MODULE SpectraGen ----
EXTENDS Spectra, MachineGen
====
