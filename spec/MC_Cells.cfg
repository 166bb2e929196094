SPECIFICATION Spec
INVARIANTS Valid Count Determines Sharp
CHECK_DEADLOCK FALSE
