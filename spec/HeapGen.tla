---- MODULE HeapGen ----
EXTENDS Heap, MachineGen
====
