SPECIFICATION Spec
CONSTANTS
  Steps = 60
  Profile = "uses"
INVARIANT Inv
CHECK_DEADLOCK FALSE
