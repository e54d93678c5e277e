SPECIFICATION Spec
VIEW View
INVARIANTS StepsHeld States Deep Renewed
CHECK_DEADLOCK FALSE
CONSTANT Null = "-"
