---------------------------- MODULE MCBagSharing ----------------------------
EXTENDS BagSharing
S3 == <<1, 1, 1>>
S4 == <<1, 1, 1, 2>>
K3 == <<7, 7, 8>>
K4 == <<7, 7, 8, 7>>
=============================================================================
