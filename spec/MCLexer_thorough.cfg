SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxLen = 5
  Full = TRUE
INVARIANTS TextLossless TextContiguous TextMaximalRuns StepsAreWhole GrammarListed PrefixStable Gen
