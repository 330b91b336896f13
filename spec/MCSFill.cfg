SPECIFICATION Spec
CONSTANTS Size = 4  Fill = TRUE
INVARIANTS DefsAgree SearchOK
CHECK_DEADLOCK FALSE
