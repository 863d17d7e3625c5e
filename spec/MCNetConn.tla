------------------------------ MODULE MCNetConn ------------------------------
EXTENDS NetConn
OneWay == {<<1, "d">>}
BothWays == {<<1, "d">>, <<1, "a">>}
TwoDial == {<<1, "d">>, <<2, "d">>}
=============================================================================
