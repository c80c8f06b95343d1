SPECIFICATION Spec
CONSTANTS
  Truncate = TRUE
  StopAtError = TRUE
  ReportAll = TRUE
  MaxFiles = 2
INVARIANTS Allowed Confined Kept Earlier
CHECK_DEADLOCK FALSE
