-------------------------- MODULE RsLockDesignMC --------------------------
EXTENDS RsLockDesign
H3 == <<1, 1, 2>>
T3 == <<1, 2, 3>>
T4 == <<1, 2, 2, 3>>
R1 == {<<0, INF>>}
R2 == {<<0, 1>>, <<0, INF>>}
R3 == {<<0, 1>>, <<1, INF>>, <<0, INF>>}
==========================================================================
