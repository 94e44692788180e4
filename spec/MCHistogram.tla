----------------------------- MODULE MCHistogram -----------------------------
EXTENDS Histogram
Cuts3 == <<"1/4", "1/2">>
Vals3 == {"0", "1/4", "1/2", "3/4"}
Cuts4 == <<"1/4", "1/2", "3/4">>
Vals4 == {"0", "1/4", "1/2", "3/4", "1"}
Tied == <<"1/2", "1/2">>
=============================================================================
