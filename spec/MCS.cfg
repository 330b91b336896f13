SPECIFICATION Spec
CONSTANTS Size = 5  Fill = FALSE
INVARIANTS DefsAgree SearchOK
CHECK_DEADLOCK FALSE
