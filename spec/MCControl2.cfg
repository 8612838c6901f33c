INIT Init
NEXT Next
CONSTANTS Vals = {"-40", "-4", "-2.5", "-1", "-0.1", "0", "0.3", "1", "2", "3", "5", "9", "30"}
INVARIANTS Exists Unique Switch Monotone
CHECK_DEADLOCK FALSE
