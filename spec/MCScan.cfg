CONSTANTS
  H = 3
  MaxObj1 = 2
  MaxObj2 = 1
  Slack = FALSE
SPECIFICATION Spec
INVARIANT Types
INVARIANT Right
INVARIANT EveryCellAssigned
