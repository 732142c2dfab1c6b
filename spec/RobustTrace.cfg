SPECIFICATION RobustSpec
VIEW View
CHECK_DEADLOCK FALSE
