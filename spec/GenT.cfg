INIT InitT
NEXT NextT
VIEW View
CHECK_DEADLOCK FALSE
