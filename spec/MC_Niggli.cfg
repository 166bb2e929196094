SPECIFICATION Spec
INVARIANTS SameVolume Ends EndsReduced Unique OnlyReducedStops ProperSteps
CHECK_DEADLOCK FALSE
