---- MODULE SpectraTrace ----
EXTENDS Spectra, MachineTrace
====
