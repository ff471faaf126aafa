SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxSteps = 4
  Wide = FALSE
VIEW View
PROPERTIES Transparent CachingPolicy RequestsOnlyCache AnswerLanguage FallbackOnlyIfMissing FailuresShow DefaultsAsGiven
