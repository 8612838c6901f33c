INIT Init
NEXT Next
VIEW View
CONSTANTS MaxLen = 4
INVARIANTS Registry Selected Rows WellsLast BoundaryLast Refused
PROPERTY AppendOnly
CHECK_DEADLOCK FALSE
