INIT Init
NEXT Next
CONSTANTS Levels = {0, 1, 2, 4}
 Patterns = 24
INVARIANTS Telescoping RatesAreRates LocalImpliesGlobal LinksMutual Gauge
CHECK_DEADLOCK FALSE
