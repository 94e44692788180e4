--------------------------- MODULE MCBinaryMethods ---------------------------
EXTENDS BinaryMethods
S4 == {"0", "1/4", "1/2", "1"}
S5 == {"0", "1/4", "1/2", "3/4", "1"}
==============================================================================
