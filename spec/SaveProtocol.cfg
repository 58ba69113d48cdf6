CONSTANTS
    MaxVersion = 5
    MaxFaults = 3
    Protocol = "replace"
SPECIFICATION Spec
INVARIANTS Complete NeverLost NeverOlder WasReal Clean Told Kept Final
CHECK_DEADLOCK FALSE
