CONSTANTS
 Lines = 0
 Columns = 0
 Values = 0
 MaxAge = 0
 Buffers = 0
 Rule = "good"
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
