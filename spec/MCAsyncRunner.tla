--------------------------- MODULE MCAsyncRunner ----------------------------
EXTENDS AsyncRunner
=============================================================================
