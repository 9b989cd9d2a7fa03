SPECIFICATION TraceSpec
CHECK_DEADLOCK FALSE
POSTCONDITION Complete
VIEW Where
