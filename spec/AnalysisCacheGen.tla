---- MODULE AnalysisCacheGen ----
EXTENDS AnalysisCache, MachineGen
====
