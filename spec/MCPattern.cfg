SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxTokens = 5
  Alpha = "small"
INVARIANTS TypeOk UniquePlaceholders UniqueNamed NumberOnlyInNamed TextsMerged RenderTotal CloseCloses
PROPERTY Sticky
