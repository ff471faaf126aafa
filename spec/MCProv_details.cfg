SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Langs = {"en", "en-ZA", "de"}
  Asked = {"en", "en-ZA", "en-ZA-boont", "enm", "en-GB", "de", "en-Latn-ZA"}
  Focus = "details"
INVARIANTS OneOfAll BestIfAny ExactFirst SameLanguage DetailsMatchStrings CountsAddUp KnownIffListed
