SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxLen = 4
  Full = FALSE
INVARIANTS TextLossless TextContiguous TextMaximalRuns StepsAreWhole GrammarListed PrefixStable Gen
