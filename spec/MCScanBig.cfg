CONSTANTS
  H = 3
  MaxObj1 = 2
  MaxObj2 = 2
  Slack = TRUE
SPECIFICATION Spec
INVARIANT Types
INVARIANT Right
INVARIANT EveryCellAssigned
