---- MODULE RoomsTrace ----
EXTENDS Rooms, MachineTrace
====
