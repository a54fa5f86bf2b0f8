---- MODULE BankGen ----
EXTENDS Bank, MachineGen
====
