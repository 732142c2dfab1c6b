SPECIFICATION SpecE
VIEW View
CHECK_DEADLOCK FALSE
