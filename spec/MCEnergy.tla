------------------------------ MODULE MCEnergy ------------------------------
EXTENDS Energy
Line3 == {<<0>>, <<1>>, <<2>>}
Line4 == {<<0>>, <<1>>, <<2>>, <<4>>}
Square == {<<0, 0>>, <<0, 1>>, <<1, 0>>, <<1, 1>>}
=============================================================================
