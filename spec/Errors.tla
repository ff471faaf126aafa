------------------------------- MODULE Errors -------------------------------
(***************************************************************************)
(* The errors of the crates, and what is said about them.                  *)
(*                                                                         *)
(* An error is [T, V, a, in]: its type and variant, the values it carries, *)
(* and the errors it wraps (none or one).  Its text is made of shipped     *)
(* localisation strings: the message of the variant, in which each value   *)
(* has its place, within the format for errors, which names the type and   *)
(* the variant.  Here only says which message is for which variant; the    *)
(* strings themselves are data of a scenario, taken from the databases.    *)
(*                                                                         *)
(* Forms of a variant:                                                     *)
(*   msg    the message, in the format                                     *)
(*   bare   the message alone (it is the message of a wrapping error)      *)
(*   wrap   the localised text of the wrapped error, in the format         *)
(*   text   the text of a foreign error, in the format                     *)
(*   detail as wrap, the wrapped error being the message                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC

Loc(i, names) == [form |-> "msg", c |-> "i18n_localiser", i |-> i, names |-> names]
LexMsg(i) == [form |-> "msg", c |-> "i18n_lexer", i |-> i, names |-> <<>>]
Pro(i, names) == [form |-> "msg", c |-> "i18n_provider", i |-> i, names |-> names]
Sql(i, names) == [form |-> "msg", c |-> "i18n_provider_sqlite3", i |-> i, names |-> names]
Bare(i, names) == [form |-> "bare", c |-> "i18n_provider_sqlite3", i |-> i, names |-> names]
Wrap == [form |-> "wrap"]
Foreign == [form |-> "text"]

Catalogue ==
  [IcuError |-> [Grapheme |-> LexMsg("grapheme"), Syntax |-> LexMsg("syntax"), WhiteSpace |-> LexMsg("white_space")],
   LexerError |-> [NoGrammar |-> LexMsg("no_grammar"), EmptyString |-> LexMsg("empty_string")],
   RegistryError |-> [LanguageIdentifier |-> Foreign, Locale |-> Foreign],
   ProviderError |->
     [ComponentNotFound |-> Pro("component_not_found", <<"component">>),
      LanguageTagRegistry |-> Wrap,
      DefaultLanguage |-> Pro("default_language", <<"component">>),
      InvalidDefaultLanguage |-> Pro("invalid_default_language", <<"component">>),
      DefaultLanguageCount |-> Pro("default_language_count", <<"component", "language">>),
      Custom |-> Wrap],
   ProviderSqlite3Error |->
     [Io |-> Foreign, Sqlite3 |-> Foreign,
      NotDirectory |-> Sql("path_not_directory", <<"path">>),
      NoSqlite3Files |-> Sql("no_sqlite3", <<"path">>),
      PathConversion |-> Sql("path_conversion", <<>>),
      NotExists |-> Sql("path_not_exist", <<"path">>),
      SchemaInvalid |-> [form |-> "detail"]],
   SchemaError |->
     [Sqlite3 |-> Foreign,
      MissingTable |-> Bare("missing_table", <<"name">>),
      Version |-> Sql("schema_version", <<"path", "version">>),
      MissingVersion |-> Sql("schema_version_missing", <<"path">>),
      MissingColumn |-> Bare("missing_column", <<"table", "column">>),
      ColumnProperty |-> Bare("column_property", <<"table", "column", "property">>),
      ColumnDefault |-> Bare("column_default", <<"table", "column", "default">>),
      ColumnMismatch |-> Bare("column_mismatch", <<"table", "column">>)],
   TreeError |->
     [LexerError |-> Wrap,
      EndedAbruptly |-> Loc("string_ended_abruptly", <<>>),
      InvalidToken |-> Loc("invalid_token", <<"state", "position", "token">>),
      UniquePattern |-> Loc("unique_pattern", <<"identifier">>),
      MultiNumberSign |-> Loc("multi_number_sign", <<"position">>),
      UniqueNamed |-> Loc("unique_named", <<"identifier">>)],
   CommandError |->
     [Custom |-> Wrap,
      AlreadyExists |-> Loc("already_exists", <<"identifier">>),
      NotFound |-> Loc("command_not_found", <<"identifier">>),
      ParameterMissing |-> Loc("parameter_missing", <<"identifier", "parameter">>),
      InvalidType |-> Loc("invalid_type", <<"identifier", "parameter">>)],
   LocaliserError |->
     [Registry |-> Wrap, Formatter |-> Wrap, Provider |-> Wrap,
      StringNotFound |-> Loc("string_not_found", <<"component", "identifier", "language_tag", "fallback">>),
      CacheEntry |-> Loc("cache_entry", <<"component", "identifier">>),
      NeverReached |-> Loc("never_reach", <<>>)],
   FormatterError |->
     [Localiser |-> Wrap, Tree |-> Wrap, Command |-> Wrap,
      Locale |-> Foreign, Calendar |-> Foreign, ParseInt |-> Foreign, Decimal |-> Foreign,
      DateTime |-> Foreign, PluralRules |-> Foreign, FixedDecimal |-> Foreign,
      InvalidRoot |-> Loc("invalid_root", <<>>),
      NoGrammar |-> Loc("no_grammar", <<>>),
      RetrieveChildren |-> Loc("retrieve_children", <<"node_type">>),
      NodeNotFound |-> Loc("node_not_found", <<"node_type">>),
      FirstChild |-> Loc("first_child", <<"node_type">>),
      RetrieveNodeData |-> Loc("retrieve_node_data", <<"node_type">>),
      RetrieveNodeToken |-> Loc("retrieve_node_token", <<"node_type">>),
      LastChild |-> Loc("last_child", <<"node_type">>),
      InvalidNode |-> Loc("invalid_node", <<"node_type">>),
      NoChildren |-> Loc("no_children", <<"node_type">>),
      PatternNamed |-> Loc("pattern_named", <<"identifier">>),
      PatternPart |-> Loc("pattern_part", <<"identifier", "index">>),
      InvalidOptionValue |-> Loc("invalid_option_value", <<"value", "option", "keyword">>),
      InvalidKeyword |-> Loc("invalid_keyword", <<"keyword", "identifier">>),
      SelectorNamed |-> Loc("selector_named", <<"named", "selector", "identifier">>),
      SelectorOther |-> Loc("selector_other", <<"keyword", "identifier">>),
      InvalidOption |-> Loc("invalid_option", <<"option", "keyword", "identifier">>),
      InvalidSelector |-> Loc("invalid_selector", <<"selector", "keyword", "identifier">>),
      NumberSignString |-> Loc("number_sign_string", <<"index">>),
      SelectorsIndex |-> Loc("selectors_index", <<"index">>),
      SelectorsIndexNamed |-> Loc("selectors_index_named", <<"identifier", "index">>),
      PlaceholderValue |-> Loc("placeholder_value", <<"part", "placeholder">>),
      InvalidValue |-> Loc("invalid_value", <<"part">>),
      NamedStringIdentifier |-> Loc("named_string_identifier", <<"identifier">>),
      NoIcuProvider |-> Loc("no_icu_provider", <<>>),
      NeverReached |-> Loc("never_reach", <<>>)]]

Data(c, i, vals) == [k |-> "ld", c |-> c, i |-> i, hasv |-> TRUE, v |-> "?", vals |-> vals]
Str(s) == [k |-> "str", v |-> s, ch |-> <<>>]
Format(e, name, what) ==
  Data("i18n_localiser", IF name = "message" THEN "error_format_enum" ELSE "error_format_enum_embedded",
       ("type" :> Str(e.T)) @@ ("variant" :> Str(e.V)) @@ (name :> what))
Message(x, a) ==
  Data(x.c, x.i, [n \in {x.names[k] : k \in DOMAIN x.names} |->
                    a[CHOOSE k \in DOMAIN x.names : x.names[k] = n]])

\* What is to be localised for an error.
RECURSIVE ErrorData(_)
ErrorData(e) ==
  LET x == Catalogue[e.T][e.V] IN
  CASE x.form = "msg" -> Format(e, "message", Message(x, e.a))
    [] x.form = "bare" -> Message(x, e.a)
    [] x.form = "wrap" -> Format(e, "error", ErrorData(e.in[1]))
    [] x.form = "detail" -> Format(e, "message", ErrorData(e.in[1]))
    [] x.form = "text" -> Format(e, "error", e.a[1])
=============================================================================
