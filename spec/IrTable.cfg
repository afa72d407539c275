SPECIFICATION Spec
CONSTANTS
  PROTOS = {"nec", "nec16", "samsung", "apple", "raw", "sbp", "denon", "rc5", "rc6"}
  FREQS = {20000, 40000, 1000000}
CHECK_DEADLOCK FALSE
