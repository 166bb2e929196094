INIT Init
NEXT Next
INVARIANT Bounded
CONSTRAINT Collect
POSTCONDITION Dump
CHECK_DEADLOCK FALSE
