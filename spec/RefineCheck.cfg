CONSTANT Mid <- Pair
INIT Init
NEXT Next
INVARIANT Accepted
CHECK_DEADLOCK FALSE
