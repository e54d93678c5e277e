SPECIFICATION TraceSpec
VIEW TraceView
INVARIANT Declared
CHECK_DEADLOCK FALSE
CONSTANT Null = "-"
