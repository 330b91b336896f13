SPECIFICATION Spec
CONSTANTS Size = 5  Fill = TRUE
INVARIANTS DefsAgree SearchOK
CHECK_DEADLOCK FALSE
