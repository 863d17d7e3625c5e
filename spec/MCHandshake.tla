---------------------------- MODULE MCHandshake ----------------------------
EXTENDS Handshake
OwnersAB == <<"A", "B">>
OwnersAA == <<"A", "A">>
OwnersABA == <<"A", "B", "A">>
=============================================================================
