SPECIFICATION Spec
CONSTANTS
  PROTOS = {"nec"}
  FREQS = {20000}
  MAXOPS = 2
  KINDS = {"clean", "corrupt", "abort", "repeat"}
  Record = FALSE
  Geo <- SmallGeo
  AppleValid <- SmallApple
INVARIANTS DecTypeOK NeverStuck Delivered NoPhantom RepeatFaithful ErrorsRight
CHECK_DEADLOCK FALSE
