CONSTANTS PctChars = {37, 43, 48, 97, 70, 103, 32, 255} PctMax = 5 B64Chars = {0, 1, 255} B64Max = 7 UriChars = {58, 47, 63, 35, 64, 91, 93, 97} UriMax = 6
SPECIFICATION Spec
INVARIANTS Pct B64 Uri
CHECK_DEADLOCK FALSE
