---- MODULE StoreGen ----
EXTENDS Store, MachineGen
====
