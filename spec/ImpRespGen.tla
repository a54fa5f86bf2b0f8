---- MODULE ImpRespGen ----
EXTENDS ImpResp, MachineGen
====
