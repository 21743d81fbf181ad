---- MODULE LockModelMC ----
EXTENDS LockModel
ProcDef == <<1, 1, 2>>
====
