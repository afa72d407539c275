SPECIFICATION Spec
CONSTANTS
  Mode = "all"
  File = "trace.ndjson"
INVARIANT Accepted
CHECK_DEADLOCK FALSE
