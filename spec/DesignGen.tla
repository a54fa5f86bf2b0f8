---- MODULE DesignGen ----
EXTENDS Design, MachineGen
====
