SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxTokens = 16
  Alpha = "large"
INVARIANTS TypeOk UniquePlaceholders UniqueNamed NumberOnlyInNamed TextsMerged RenderTotal CloseCloses
PROPERTY Sticky
VIEW View
