---- MODULE DesignTrace ----
EXTENDS Design, MachineTrace
====
