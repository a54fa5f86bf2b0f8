---- MODULE ImpRespTrace ----
EXTENDS ImpResp, MachineTrace
====
