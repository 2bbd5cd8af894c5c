SPECIFICATION FSpec
VIEW View
CHECK_DEADLOCK FALSE
