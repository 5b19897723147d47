SPECIFICATION ProgramSpec
INVARIANT Conforms
CHECK_DEADLOCK FALSE
