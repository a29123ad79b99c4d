SPECIFICATION TraceSpec
VIEW TView
CHECK_DEADLOCK FALSE
