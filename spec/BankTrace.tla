---- MODULE BankTrace ----
EXTENDS Bank, MachineTrace
====
