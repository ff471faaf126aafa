-------------------------------- MODULE Plain --------------------------------
(***************************************************************************)
(* What an error says by itself, without any localiser: its plain text.    *)
(* Like the localised text it names the type and the variant, wherever     *)
(* that does, and has the message of the variant in English, with every    *)
(* value in its place; a wrapped error says its own within brackets.       *)
(*                                                                         *)
(* A message is [t, o]: the texts t[1], t[2], ... between the values, and  *)
(* the places o[1], o[2], ... of the values among those of the error.      *)
(***************************************************************************)
EXTENDS Errors

M(t, o) == [t |-> t, o |-> o]
M0(s) == M(<<s>>, <<>>)
NeverReached == M0("Build error: Should never have reached this match branch.")
OfNode(a, b) == M(<<a, b>>, <<1>>)

Messages ==
  [IcuError |->
     [Grapheme |-> M0("No data provider is available for the ‘GraphemeClusterSegmenter’."),
      Syntax |-> M0("No data provider is available for the ‘Pattern_Syntax’."),
      WhiteSpace |-> M0("No data provider is available for the ‘Pattern_White_Space’.")],
   LexerError |->
     [NoGrammar |-> M0("No grammar syntax characters was supplied."), EmptyString |-> M0("Empty string was supplied.")],
   ProviderError |->
     [ComponentNotFound |-> M(<<"The component ‘", "’ could not found.">>, <<1>>),
      DefaultLanguage |-> M(<<"The default language tag is missing for the component ‘", "’.">>, <<1>>),
      InvalidDefaultLanguage |-> M(<<"The default language tag is invalid for the component ‘", "’.">>, <<1>>),
      DefaultLanguageCount |-> M(<<"There are no localisation strings in the component ‘", "’ for the default language tag ‘", "’.">>, <<1, 2>>)],
   ProviderSqlite3Error |->
     [NotDirectory |-> M(<<"Provided path ‘", "’ is not a directory.">>, <<1>>),
      NoSqlite3Files |-> M(<<"No ‘.sqlite3’ files was found in ‘", "’.">>, <<1>>),
      PathConversion |-> M0("Conversion to PathBuf error."),
      NotExists |-> M(<<"Provided path ‘", "’ does not exist.">>, <<1>>)],
   SchemaError |->
     [MissingTable |-> M(<<"The database is missing table ‘", "’.">>, <<1>>),
      Version |-> M(<<"The Sqlite3 file ‘", "’ is using unsupported schema version. The schema version must be ‘", "’.">>, <<1, 2>>),
      MissingVersion |-> M(<<"The Sqlite3 file ‘", "’ is missing the schema version entry in the ‘metadata’ table.">>, <<1>>),
      MissingColumn |-> M(<<"The table ‘", "’ is missing column ‘", "’.">>, <<1, 2>>),
      ColumnProperty |-> M(<<"The column ‘", "’ of table ‘", "’ is missing property ‘", "’.">>, <<2, 1, 3>>),
      ColumnDefault |-> M(<<"The column ‘", "’ of table ‘", "’ must have a default value of ‘", "’.">>, <<2, 1, 3>>),
      ColumnMismatch |-> M(<<"Check `verify_schema()` as default value type does not match column type for the column ‘", "’ of table ‘", "’.">>,
                           <<2, 1>>)],
   TreeError |->
     [EndedAbruptly |-> M0("The string ended abruptly."),
      InvalidToken |-> M(<<"In the parser state ‘", "’ an invalid token ‘", "’ was found at the position ", " of the string.">>, <<1, 3, 2>>),
      UniquePattern |-> M(<<"Pattern identifiers must be unique. The identifier ‘", "’ already exists.">>, <<1>>),
      MultiNumberSign |-> M(<<"Found sequential number signs at the position ", " of the string.">>, <<1>>),
      UniqueNamed |-> M(<<"Named substrings must have unique identifiers. The identifier ‘", "’ already exists.">>, <<1>>)],
   CommandError |->
     [AlreadyExists |-> M(<<"The command ‘", "’ already exists in the CommandRegistry.">>, <<1>>),
      NotFound |-> M(<<"The command ‘", "’ was not found in the CommandRegistry.">>, <<1>>),
      ParameterMissing |-> M(<<"The parameter number ", " is missing for the command ‘", "’.">>, <<2, 1>>),
      InvalidType |-> M(<<"The parameter number ", " has invalid type for the command ‘", "’.">>, <<2, 1>>)],
   LocaliserError |->
     [StringNotFound |-> M(<<"No string was found for the component ‘", "’ with identifier ‘", "’ for the language tag ‘", "’. Fallback was used: ", ".">>,
                           <<1, 2, 3, 4>>),
      CacheEntry |-> M(<<"Unable to get the string for the component ‘", "’ with the identifier ‘",
                         "’ as the cache entry requires values for formatting.">>, <<1, 2>>),
      NeverReached |-> NeverReached],
   FormatterError |->
     [InvalidRoot |-> M0("The tree root must be a ‘Root’ node."),
      NoGrammar |-> M0("No grammar syntax characters was found in the provided localisation string."),
      RetrieveChildren |-> OfNode("Failed to retrieve the children for the ‘", "’ node."),
      NodeNotFound |-> OfNode("The expected node ‘", "’ was not found."),
      FirstChild |-> OfNode("The first child of the ‘", "’ node was not found."),
      RetrieveNodeData |-> OfNode("Failed to retrieve the data for the ‘", "’ node."),
      RetrieveNodeToken |-> OfNode("Failed to retrieve the token for the ‘", "’ node."),
      LastChild |-> OfNode("The last child of the ‘", "’ node was not found."),
      InvalidNode |-> OfNode("Invalid child node found in the ‘", "’ node."),
      NoChildren |-> OfNode("No children nodes was found for ‘", "’ node."),
      PatternNamed |-> M(<<"Failed to retrieve the pattern for the named string ‘", "’.">>, <<1>>),
      PatternPart |-> M(<<"Failed to retrieve the part ‘", "’ of the pattern for the named string ‘", "’.">>, <<2, 1>>),
      InvalidOptionValue |-> M(<<"The value ‘", "’ is invalid for the option ‘", "’ for the keyword ‘", "’.">>, <<1, 2, 3>>),
      InvalidKeyword |-> M(<<"Invalid keyword ‘", "’ for the placeholder ‘", "’.">>, <<1, 2>>),
      SelectorNamed |-> M(<<"The named string identifier ‘", "’ was not found for the selector ‘", "’ of the placeholder ‘", "’.">>, <<1, 2, 3>>),
      SelectorOther |-> M(<<"The required ‘other’ selector was not found for the keyword ‘", "’ of the placeholder ‘", "’.">>, <<1, 2>>),
      InvalidOption |-> M(<<"Invalid option ‘", "’ for the keyword ‘", "’ of the placeholder ‘", "’.">>, <<1, 2, 3>>),
      InvalidSelector |-> M(<<"Invalid selector ‘", "’ for the keyword ‘", "’ of the placeholder ‘", "’.">>, <<1, 2, 3>>),
      NumberSignString |-> M(<<"Unable to retrieve the formatted string for the NumberSign index ", ".">>, <<1>>),
      SelectorsIndex |-> M(<<"The index ", " is not found in the collected selectors.">>, <<1>>),
      SelectorsIndexNamed |-> M(<<"Failed to retrieve the string for the named string ‘", "’ of the selectors index ", ".">>, <<1, 2>>),
      PlaceholderValue |-> M(<<"The placeholder value was not found for the pattern part ‘", "’ of the placeholder ‘", "’.">>, <<1, 2>>),
      InvalidValue |-> M(<<"Invalid value type was provided for the pattern part ‘", "’.">>, <<1>>),
      NamedStringIdentifier |-> M(<<"The named string identifier ‘", "’ already exists. The identifiers must be unique and not ‘_’.">>, <<1>>),
      NoIcuProvider |-> M0("Build error: At least one ICU4X data provider must be specified for the crate ‘i18n_icu’ using the crate's features."),
      NeverReached |-> NeverReached]]

\* Those of IcuError name themselves only when they are localised.
Heading(e) == IF e.T = "IcuError" THEN "" ELSE e.T \o "::" \o e.V \o ": "

\* Whether falling back was tried is said with a capital.
Word(e, k) == IF e.V = "StringNotFound" /\ k = 4 THEN (IF e.a[k].v = "true" THEN "True" ELSE "False") ELSE e.a[k].v

RECURSIVE Between(_, _, _)
Between(e, m, k) == IF k > Len(m.o) THEN m.t[k] ELSE m.t[k] \o Word(e, m.o[k]) \o Between(e, m, k + 1)

RECURSIVE PlainText(_)
PlainText(e) ==
  LET form == Catalogue[e.T][e.V].form IN
  CASE form = "msg" -> Heading(e) \o Between(e, Messages[e.T][e.V], 1)
    [] form = "bare" -> Between(e, Messages[e.T][e.V], 1)
    [] form \in {"wrap", "detail"} -> Heading(e) \o "[" \o PlainText(e.in[1]) \o "]."
    [] form = "text" -> Heading(e) \o "[" \o e.a[1].v \o "]."

\* Every variant that has a message of its own has it here, and has places for all of its values.
ASSUME \A T \in DOMAIN Catalogue : \A V \in DOMAIN Catalogue[T] :
         Catalogue[T][V].form \in {"msg", "bare"} =>
           /\ Len(Messages[T][V].t) = Len(Messages[T][V].o) + 1
           /\ {Messages[T][V].o[k] : k \in DOMAIN Messages[T][V].o} = DOMAIN Catalogue[T][V].names
           /\ Len(Messages[T][V].o) = Len(Catalogue[T][V].names)
=============================================================================
