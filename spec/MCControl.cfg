INIT Init
NEXT Next
CONSTANTS Vals = {"-4", "-1", "0", "1", "2", "3", "5", "9"}
INVARIANTS Exists Unique Switch Monotone
CHECK_DEADLOCK FALSE
