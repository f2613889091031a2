SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxLines = 4
 Width = 3
 Times = {0}
 Radii = {1, 3}
INVARIANTS RoundTrip NotesIgnored Complete SyncLaw
