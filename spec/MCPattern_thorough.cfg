SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxTokens = 7
  Alpha = "small"
INVARIANTS TypeOk UniquePlaceholders UniqueNamed NumberOnlyInNamed TextsMerged RenderTotal CloseCloses
PROPERTY Sticky
