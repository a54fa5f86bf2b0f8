---- MODULE RoomsGen ----
EXTENDS Rooms, MachineGen
====
