SPECIFICATION SpecD
VIEW View
CHECK_DEADLOCK FALSE
