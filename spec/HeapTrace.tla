---- MODULE HeapTrace ----
EXTENDS Heap, MachineTrace
====
