SPECIFICATION ReaderSpec
CONSTANTS Chunk = 7 MaxHeader = 40 MaxData = 24
INVARIANTS DataStart NoTruncatedData NoCompleteRefused
PROPERTY Terminates
CHECK_DEADLOCK FALSE
