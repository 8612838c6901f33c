INIT Init
NEXT Next
CONSTANTS MaxN = 3
 MaxCells = 6
INVARIANTS NumberingOk PartitionOk NeighboursOk GeometryOk TransOk
CHECK_DEADLOCK FALSE
