SPECIFICATION Spec
INVARIANTS Invertible Injective InRange RoundTrip OneImage Symmetric Holohedral
CHECK_DEADLOCK FALSE
