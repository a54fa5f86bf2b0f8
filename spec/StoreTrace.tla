---- MODULE StoreTrace ----
EXTENDS Store, MachineTrace
====
