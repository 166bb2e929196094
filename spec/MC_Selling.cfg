SPECIFICATION Spec
INVARIANTS Zero Spans EndsObtuse Voronoi Minimal
PROPERTY Decreases
CHECK_DEADLOCK FALSE
