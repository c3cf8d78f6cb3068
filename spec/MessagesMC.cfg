SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS RoundTrip ReadBack TooShort TooMany NoConfusion CallReads Shown
