---- MODULE MCCalls ----
EXTENDS Calls
ProgA == <<<<<<"w", 2>>, <<"w", 1>>>>, <<<<"w", 1>>, <<"c", 0>>>>, <<<<"c", 0>>, <<"d", 0>>>>>>
ProgB == <<<<<<"w", 2>>, <<"d", 0>>>>, <<<<"c", 0>>>>, <<<<"r", 0>>>>, <<<<"l", 0>>, <<"l", 0>>>>>>
ProgD == <<<<<<"w", 1>>, <<"w", 1>>>>, <<<<"c", 0>>>>, <<<<"l", 0>>, <<"l", 0>>>>, <<<<"d", 0>>>>>>
ProgC == <<<<<<"w", 1>>, <<"w", 2>>>>, <<<<"w", 3>>, <<"w", 1>>>>, <<<<"w", 2>>, <<"d", 0>>>>>>
====
