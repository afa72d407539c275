SPECIFICATION GSpec
CONSTANTS
  PROTOS = {"nec", "nec16", "samsung", "apple", "raw", "sbp", "denon", "rc5", "rc6"}
  FREQS = {20000, 40000, 1000000}
  MAXOPS = 4
  KINDS = {"clean", "corrupt", "abort", "repeat"}
  Record = TRUE
  Tag = "t"
  BitChoices <- SimBits
  Thin <- One1
  GoodPick <- SimGood
  NoiseChoices <- SimNoise
CHECK_DEADLOCK FALSE
