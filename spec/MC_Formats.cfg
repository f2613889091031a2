SPECIFICATION ReaderSpec
CONSTANTS Chunk = 3 MaxHeader = 10 MaxData = 6
INVARIANTS DataStart NoTruncatedData NoCompleteRefused
PROPERTY Terminates
CHECK_DEADLOCK FALSE
