SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Langs = {"en", "en-ZA", "en-ZA-boont", "enm"}
  Asked = {"en", "en-ZA", "en-ZA-boont", "enm", "en-GB", "de", "en-Latn-ZA"}
  Focus = "strings"
INVARIANTS OneOfAll BestIfAny ExactFirst SameLanguage DetailsMatchStrings CountsAddUp KnownIffListed
