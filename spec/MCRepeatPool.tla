---------------------------- MODULE MCRepeatPool ----------------------------
EXTENDS RepeatPool
=============================================================================
