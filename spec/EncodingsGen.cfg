CONSTANTS PctChars = {37, 43, 48, 97, 70, 103, 255} PctMax = 4 B64Chars = {0, 1, 255} B64Max = 4 UriChars = {58, 47, 63, 35, 64, 91, 93, 97} UriMax = 4
SPECIFICATION Spec
INVARIANT Shown
CHECK_DEADLOCK FALSE
