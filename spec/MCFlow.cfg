INIT Init
NEXT Next
CONSTANTS Levels = {0, 1, 3}
 Patterns = 6
INVARIANTS Telescoping RatesAreRates LocalImpliesGlobal LinksMutual Gauge
CHECK_DEADLOCK FALSE
