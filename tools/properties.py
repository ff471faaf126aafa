"""Writes properties.jsonl and MANIFEST.json (run by hand after a change of the list)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LEX, TREE, FMT, LOCR = 'crates/lexer/src/lexer.rs', 'crates/localiser/src/tree.rs', 'crates/localiser/src/formatter.rs', 'crates/localiser/src/localiser.rs'
CMD, SCR, SQL, CORE = 'crates/localiser/src/command.rs', 'crates/localiser/src/script.rs', 'crates/provider/sqlite3/src/provider.rs', 'crates/provider/core/src/provider.rs'
REG, USCR, TS, TYPES = 'crates/utility/src/language.rs', 'crates/utility/src/script.rs', 'crates/utility/src/tagged_string.rs', 'crates/utility/src/types.rs'
P = []


def prop(id, title, statement, over, text, why, files, mech, spec, note, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, spec=spec, note=note,
                  observe=observe or [], state=state or []))


prop('C01', 'Tokenising loses nothing and positions are exact',
     'The strings of the tokens of a text, put together in order, are the text. Every token carries the position of its start (byte, character and '
     'grapheme) and its length in each of these units, counted from the start of the text (graphemes token by token), and tokens follow each other without gap or overlap.',
     ['inputs'], 'every non-empty text over all of Unicode and every non-empty set of grammar characters',
     'The tests tokenise a handful of ASCII sentences; positions go wrong only for mixtures of multi-byte characters, combining sequences and '
     'grammar characters at particular places.',
     [LEX], [('LexerIterator::next', LEX), ('LexerIterator::try_new', LEX)], 'Lexer.tla, MCLexer.tla, TraceLex.tla',
     'All texts up to a length over an alphabet with one member per kind of character and width are explored in TLC and replayed; random long texts beyond.',
     ['LexerIterator'])
prop('C02', 'Every character gets the token type of its class, in maximal runs',
     'By the Unicode properties, a character of Pattern_White_Space is white space, and one of Pattern_Syntax is syntax, or grammar if it is among the given '
     'grammar characters; all others are identifier. Neighbouring characters of one class are in one token, except that each grammar character is '
     'a token of its own. Tokenising an empty text or with no grammar characters is an error.',
     ['inputs'], 'every character of Unicode, on its own and next to every other class, and every grammar set',
     'The tests use a few ASCII characters; there are 1.1 million code points and an off-by-one in a class or a run shows for few of them.',
     [LEX, 'crates/lexer/src/icu.rs'], [('LexerIterator::next', LEX), ('IcuDataProvider', 'crates/lexer/src/icu.rs')], 'Lexer.tla, MCLexer.tla, TraceLex.tla',
     'The specification takes the character classes from ICU4X. Quick sweeps the blocks where the classes change, thorough sweeps all code points.',
     ['LexerIterator', 'Token'])
prop('C03', 'A pattern is accepted exactly if it is well-formed, and nothing panics',
     'A localisation string is accepted if and only if it follows the documented pattern grammar: balanced braces, known keywords and options, '
     'complete escapes and literals, unique names, existing targets of selectors. For every other string the request ends with an error; no string, '
     'however damaged, makes the localiser panic or hang.',
     ['inputs'], 'every string over the grammar, all shorter ones and all parser states',
     'The tests parse about a dozen correct strings and few wrong ones. The parser has some 15 states with an error for most characters in each.',
     [TREE, FMT], [('Tree parser', TREE), ('Formatter::try_new', FMT)], 'Pattern.tla (parser as a state machine), MCPattern.tla, TraceLoc.tla',
     'All short patterns and a state-covering set of patterns from TLC are replayed, plus random and damaged patterns. Strings whose treatment is '
     'undocumented are left open in the specification, apart from panics.', ['Localiser::format_with_defaults', 'Localiser::format'])
prop('C04', 'Text, escapes, literals and placeholders come out as written',
     'Text outside of braces appears unchanged in the result; an escaped character stands for itself; literal text in braces is kept as it is, with '
     'doubled backticks as one. A placeholder is replaced by its value and by nothing else, whatever the value contains; a value that is missing, or '
     'of a type that does not suit, is an error.',
     ['inputs'], 'every accepted pattern and all values of all placeholder types',
     'Tests check fixed strings with friendly values; not values with grammar characters, multi-byte text next to escapes, or missing values.',
     [FMT, TREE], [('Formatter::format', FMT), ('part_text, part_pattern', FMT)], 'Pattern.tla (Compile, Render), TraceLoc.tla',
     'The text is computed by the specification from pattern and values, for random patterns aimed at this.', ['Localiser::format'])
prop('C05', 'Plural, ordinal and select choose the right branch, and # is its number',
     'plural and ordinal choose the branch of the CLDR category of the number in the language of the string, select the branch named by the value; '
     'where there is no such branch, that of other (for select without other, an error). In the string of a branch, # stands for the number that selected '
     'it, formatted for the language (in the string of a select branch for nothing), and branches may nest to any depth.',
     ['inputs', 'configurations'], 'every language, every number of every type, every set of branches and nesting',
     'Tests use a few English numbers. Languages have up to six categories, and nesting with # multiplies the cases.',
     [FMT], [('Formatter::format', FMT), ('plural_rules_cardinal/ordinal', FMT)], 'Pattern.tla (Render), TraceLoc.tla',
     'Plural categories and formatted numbers are facts of ICU4X that the specification asks for.', ['Localiser::format'])
prop('C06', 'Number and date formatting obey each option and the language',
     'A decimal or date_time placeholder is formatted for the language of the string that was found, with exactly the options given (sign, group; '
     'date, time, calendar), each option having its documented effect and default. An option or option value that is not documented is an error.',
     ['inputs', 'configurations'], 'every language, every combination of options, and numbers, dates and times of every type',
     'There are hundreds of combinations of options, value types and languages; tests sample two.',
     [FMT], [('PatternDecimal, PatternDateTime', FMT), ('decimal/date formatter construction', FMT)], 'Pattern.tla (Options, Render), TraceLoc.tla',
     'ICU4X formats the same value with the options the specification derives from the pattern.', ['Localiser::format'])
prop('C07', 'Commands run with their arguments; the command registry never replaces one',
     'A command in a pattern is called with its arguments in order (immediately with the literal ones, or delayed with placeholder values), and its '
     'result stands in its place; an unknown or failing command is an error. In a command registry a name, once registered, keeps its function: registering '
     'it again is refused and changes nothing, and look-up and listing show exactly what was registered.',
     ['histories', 'inputs'], 'every history of registrations, look-ups and patterns that call commands with any arguments',
     'Tests register one command and call it once.',
     [CMD, FMT], [('CommandRegistry::insert/command/list', CMD), ('part_command', FMT)], 'Pattern.tla (Apply), Localiser.tla (cmd steps), TraceLoc.tla',
     'Built-in and driver-supplied commands, whose results the specification computes.', ['CommandRegistry', 'Localiser::format'])
prop('C08', 'The cache never changes an answer, apart from keeping it',
     'With unchanged localisation data, every request gets the same answer whatever was requested before and whatever caching was in force. A request '
     'stores its string only if caching is in force for it, and a stored string is used again only for the same component, identifier, language, kind of request '
     '(literal or formatted) and fallback choice.',
     ['histories'], 'every history of requests with all combinations of caching, fallback, literal and formatted, and of changes to the data',
     'Tests make one or two requests on a fresh localiser; a wrong cache key needs two particular requests in a particular order.',
     [LOCR], [('Localiser cache', LOCR)], 'Localiser.tla, MCLoc.tla, TraceLoc.tla',
     'All short histories from TLC and random long ones on a provider whose strings change under the localiser, so that it shows what was cached.',
     ['Localiser::format', 'Localiser::literal'])
prop('C09', 'Language resolution: own language, parents, then default only if allowed',
     'A request is answered with the string of the requested language or its nearest parent; only if there is none and falling back is allowed, with '
     'the one of the default language of the component. The language reported with the answer is the one of the string, the string is formatted for '
     'it, and if nothing is found the error names component, identifier, language and whether falling back was tried. If the provider of the strings '
     'fails meanwhile, the request ends with its error, and nothing is stored.',
     ['histories', 'inputs', 'configurations'], 'every set of translations, requested language, fallback choice and default',
     'The tests have a database of two languages.',
     [LOCR, CORE, SQL], [('Localiser::localisation request', LOCR)], 'Localiser.tla (Resolve), Provider.tla, MCLoc.tla, TraceLoc.tla',
     'A mock provider in the driver and the SQLite provider.', ['Localiser::format', 'Localiser::literal'])
prop('C10', 'Defaults are those last set, and requests without arguments use them',
     'Setting defaults changes exactly those of language, fallback and caching that are given. A request without explicit choices behaves as one with the current defaults '
     'spelt out, and an explicit choice prevails over the default for that request only.',
     ['histories'], 'every history of changing defaults and of requests of all kinds',
     'Tests set the defaults once.', [LOCR], [('Localiser::defaults, *_with_defaults', LOCR)], 'Localiser.tla, MCLoc.tla, TraceLoc.tla',
     'All short histories from TLC, and random long ones.', ['Localiser::defaults', 'Localiser::default_language'])
prop('C11', 'Localisation data and errors are localised from the inside out',
     'Localisation data is localised like a request for its string with its values, in which nested localisation data is first localised for the same language '
     'with the same choices; data without values gives the string as a literal. If any nested part fails, the whole fails with the error of such a part; '
     'an error value is localised as the data it carries.',
     ['inputs', 'histories'], 'every tree of nested localisation data, on every provider content',
     'Tests localise one error without nesting deeper than one.',
     [LOCR, TYPES], [('Localiser::localise_data / localise_error', LOCR)], 'Localiser.tla (DataRequest), TraceLoc.tla',
     'Random trees up to depth 4 over random providers.', ['Localiser'])
prop('C12', 'The SQLite provider finds the best match and an exact match only exactly',
     'For a language the provider returns the string of this very language if there is one, else one of a language that extends it; else the same after '
     'dropping its last subtag, and so on. Tags are compared by whole subtags, and a string of another component, identifier or unrelated language is never '
     'returned. The exact-match query returns a string exactly if there is one for that very language.',
     ['inputs', 'histories'], 'every repository content and every requested component, identifier and language, in every order of queries',
     'Tests query a few rows of the shipped databases.',
     [SQL], [('strings/string/string_exact_match', SQL), ('query_pattern', SQL)], 'Provider.tla, MCProv.tla, TraceProv.tla',
     'All small repositories from TLC are written as SQLite files and queried; random larger ones beyond.', ['LocalisationProvider trait'])
prop('C13', 'All strings of the best level are returned, the all-in-one file first',
     'Asking for all strings returns, exactly once and with its language, each string of the language or of languages that extend it, else of the nearest '
     'shortened language for which there is any. Strings of a component are taken from the all-in-one file if it has any that match, otherwise from the file of the component; '
     'a component in neither is an error.',
     ['inputs', 'histories', 'configurations'], 'every split of components, identifiers and languages over component files and the all-in-one file',
     'Tests use one layout of files.',
     [SQL], [('strings', SQL), ('try_new: files and connections', SQL)], 'Provider.tla, MCProv.tla, TraceProv.tla',
     'As C12, aimed at the list query and the layout of files.', ['LocalisationProvider trait'])
prop('C14', 'Details of repository, components and identifiers agree with the strings',
     'The details of an identifier, a component and the repository report exactly the languages, string counts, ratios, defaults, components and '
     'contributors that the stored strings and contributor entries imply, however often and in whatever order they are asked for.',
     ['inputs', 'histories', 'configurations'], 'every repository content, and every order of detail queries',
     'Tests look at single fields for the shipped databases.',
     [SQL, CORE], [('identifier_details/component_details/repository_details', SQL)], 'Provider.tla (details), MCProv_details.cfg, TraceProv.tla',
     'All small repositories and random larger ones; details are derived anew by the specification from the rows.', ['LocalisationProvider trait'])
prop('C15', 'A provider opens exactly on a directory of sound databases',
     'Opening a provider succeeds if and only if the path is a directory that has at least one usable database file and every database file in it has the supported '
     'schema version and all required tables and columns with the required properties; other files and subdirectories do not matter. Otherwise opening fails with an error; it never panics.',
     ['inputs', 'configurations'], 'every single flaw in every table and column of the schema, and the kinds of directories and files',
     'Tests open sound repositories and one missing path.',
     [SQL], [('try_new', SQL), ('verify_schema', SQL)], 'Provider.tla (SchemaOk, OpenAllows), TraceProv.tla',
     'Every column of every table is damaged in every way, one at a time, in a lone file and next to a sound one.', ['LocalisationProviderSqlite3::try_new'])
prop('C16', 'Each language has one canonical shared tag, and the lists are complete',
     'All spellings of a language give the same shared tag instance, in canonical form, and different languages different instances; a malformed '
     'spelling is an error and registers nothing. The lists hold every registered canonical tag once, and every other spelling that was asked, once.',
     ['histories', 'inputs'], 'every history of look-ups with every spelling',
     'Tests register a single tag.',
     [REG], [('LanguageTagRegistry::tag/icu_language/list*', REG)], 'Registry.tla, MCReg.tla, TraceReg.tla',
     'All short histories from TLC and random long ones.', ['LanguageTagRegistry'])
prop('C17', 'Threads that share a tag registry all get the same instances',
     'With the sync feature, calls of any number of threads on one registry act as if made one after the other: all threads get the same instance of a '
     'tag, the lists show every registered tag and spelling exactly once and nothing else, and no call deadlocks or panics.',
     ['schedules'], 'every interleaving of calls of several threads',
     'All tests are single-threaded, and run without the sync feature.',
     [REG], [('LanguageTagRegistry with Mutex', REG)], 'Registry.tla, MCRegConc.tla (locks), TraceConc.tla (linearisation by TLC)',
     'All interleavings of the lock-level model; recorded runs of real threads are explained by TLC or reported. The operating system chooses the interleavings of the real threads; further runs, in Miri, take them from a seed.',
     ['LanguageTagRegistry'])
prop('C18', 'Threads that share a provider get the answers a single thread gets',
     'With the sync feature, any number of threads may query one SQLite provider at the same time: every answer is the one that a lone query gets, and no '
     'call deadlocks or panics.',
     ['schedules', 'histories'], 'every interleaving of queries of several threads on a fresh provider',
     'All tests are single-threaded.', [SQL], [('query cache and detail caches behind Mutex/OnceLock', SQL)], 'Provider.tla, MCProvConc.tla, TraceProv.tla',
     'Every recorded answer of real threads is judged by the specification, as the provider does not change.', ['LocalisationProvider trait'])
prop('C19', 'Date and time strings are read exactly as ISO 8601 says',
     'A string value given to a date_time placeholder is read as the ISO 8601 date, time, or both that it denotes, in all documented basic, extended and '
     'expanded forms. A date or time that does not exist (month 13, day 0, 30 February, hour 25), or that has letters in place of digits, is an error, and no string makes the localiser panic.',
     ['inputs'], 'every documented form with every field in and out of range, and damaged strings',
     'Tests format two strings.', [FMT], [('decompose_iso_date, decompose_iso_time', FMT)], 'IsoTime.tla, MCIso.tla, TraceLoc.tla',
     'The model writes dates in all forms and proves that the specification reads them back; every text is given to the real code.', ['Localiser::format'])
prop('C20', 'All build flavours behave alike',
     'With the sync feature, the icu_extended feature, the logging feature, and all of them together, the libraries compile, and localisers, registries and repositories behave as without, for every request and history; with icu_extended the '
     'extensions of a language tag (numbering system, calendar) are honoured in addition.',
     ['configurations', 'histories', 'inputs'], 'every history and pattern, in each build flavour',
     'The tests are run in one flavour only; most code exists twice, once for each flavour.',
     [REG, LOCR, FMT, SQL, CMD], [('cfg(feature = "sync"), cfg(feature = "icu_extended")', FMT)], 'all of the above specifications',
     'The same specifications validate histories recorded from the other builds.', ['Localiser', 'LanguageTagRegistry'])
prop('C21', 'A language reports the data of its own script',
     'The script data for a language is that of the script in its tag, or of its likely script, and none if it has none; the same for the default language. For every '
     'known script, category, historic flag and directions are right, and each direction splits into its line and text direction.',
     ['inputs', 'histories'], 'every script code, languages with explicit, likely and unknown scripts',
     'No test asks for script data.', [SCR, USCR, LOCR], [('DataProvider::new', SCR), ('Localiser::script_data*', LOCR)], 'Scripts.tla, Localiser.tla (ScriptMatch), TraceLoc.tla',
     'The specification has a table of all scripts; ICU4X decides the likely script, and CLDR the text direction of scripts in use.',
     ['Localiser::script_data_for_language_tag'])
ERRS = ['crates/%s/src/error.rs' % x for x in ('lexer', 'utility', 'localiser', 'provider/core', 'provider/sqlite3')]
prop('C22', 'Every error of the crates localises with the shipped strings',
     'With the databases that ship with the crates, every error value of the lexer, registries, providers, parser, formatter, commands and localiser can be localised '
     'in each shipped language: the text names the type and variant of the error, has the message shipped for it with every value in its place, and '
     'an error that is wrapped is localised within it.',
     ['inputs', 'histories'], 'every error variant with any values, wrapped to any depth, constructed or occurring, in every language, and every shipped string',
     'No test localises an error other than two; there are some 80 variants, each with its own identifiers and value names, which nothing else compares with the databases.',
     ERRS + ['crates/localiser/l10n/i18n_localiser.sqlite3', 'crates/lexer/l10n/i18n_lexer.sqlite3', LOCR],
     [('LocalisationErrorTrait implementations', ERRS[2]), ('Localiser::localise_error', LOCR)], 'Errors.tla, Localiser.tla, TraceLoc.tla',
     'Each constructible variant in the shipped languages and others, random wrapping, and errors provoked by broken patterns. Errors about node types can not be constructed from outside.',
     ['Localiser::localise_error', 'LocalisationErrorTrait::localisation_data'])
prop('C23', 'Reading a repository never changes it',
     'Opening a repository, and any history of queries on it, leaves every file of the directory as it was and adds no file, whether the databases are sound or refused; '
     'also when files are removed while the provider is open.',
     ['histories', 'configurations'], 'every repository, sound or damaged, and every history of queries, with files removed in between',
     'Tests compare answers only; none looks at the files afterwards, and the files are opened anew by SQLite in each test.',
     [SQL], [('try_new: connections', SQL), ('prepared queries', SQL)], 'Provider.tla, TraceProv.tla (gone, disk)',
     'The driver compares the directory, with the content of all files, before and after; histories as for C12 to C15.',
     ['LocalisationProviderSqlite3::try_new', 'LocalisationProvider trait'])
prop('C24', 'A failing file access is an error and leaves no trace',
     'If a database file can not be opened, locked or read at some moment of a query, or not read while the repository is opened, that call ends with an error that says so, or with the right '
     'answer, never with a panic or a partial, empty or wrong answer; and every later query, of the same or any other kind, answers as if nothing had failed. (A file that can not be connected to at all while the repository is opened is passed over, by design.)',
     ['fault_sequences', 'histories'], 'every query, every access to a file during it, one failure or all from there on, and every history after it, in both threading flavours',
     'Tests read sound files on a sound disk; no access fails in any of them, so neither the error paths nor what is remembered afterwards is ever seen.',
     [SQL], [('build_cache', SQL), ('find_strings, languages, contributors, count', SQL), ('connection, connection_sync', SQL)],
     'Provider.tla, MCProvFault.tla, TraceProv.tla (hit)',
     'The driver puts a layer between SQLite and the files that makes a chosen access fail; each query is then repeated without failure. TLC explores all places of failures in the design.',
     ['LocalisationProviderSqlite3::try_new', 'LocalisationProvider trait'])
prop('C25', 'An error names the piece that is at fault',
     'What an error names is at fault. A localisation string that does not parse is refused at the first token after which no correct string can follow, with its position in graphemes and its text, or as one '
     'that ended abruptly if only its end is wrong; a string without sense, and a value that does not suit, with the very placeholder, keyword, option, option value, selector, named string or command (and its '
     'parameter) that is wrong; a provider error names the component without the string source or the default language; a refused repository names the table, the column and the property, or the file and the version, that is wrong.',
     ['inputs', 'histories'], 'every damaged or senseless string, every unsuitable value, every repository with flaws',
     'Tests look at one error at most of each kind, and most of them only at its kind. Which piece is at fault depends on everything before it in the string, and there is one such case for every place and every option.',
     [TREE, FMT, SQL], [('the parser state machine, InvalidToken, EndedAbruptly', TREE), ('format_pattern, options and selectors', FMT), ('verify_schema, columns_check', SQL)],
     'Blame.tla (Faults), Provider.tla (CallFaults, OpenFaults), TraceLoc.tla, TraceProv.tla (why)',
     'The strings of C03 and the values of C04 to C07, and the repositories of C14 and C15, with one flaw or several; the specification computes the set of faults, and each error has to name one of them.',
     ['Localiser::literal, Localiser::format_with_defaults', 'LocalisationProviderSqlite3::try_new', 'LocalisationProvider trait'])
prop('C26', 'The plain text of an error says what its localisation says',
     'Without a localiser, an error prints the English message of its variant (the text that the crates give for it) with each value in the place that it has in the localised message, on one line, after the type and the variant '
     'wherever these are part of its localisation (but for IcuError); an error that is wrapped prints its own text within brackets; likewise for the errors that a localiser returns.',
     ['inputs', 'histories'], 'every error variant with any values, wrapped to any depth, constructed or occurring',
     'Tests look at the plain text of a few errors; with some 80 variants with up to four values each, exchanged values show only in the text of that variant.',
     ERRS, [('Display implementations', ERRS[2]), ('Display of SchemaError and others', ERRS[4])], 'Plain.tla, Errors.tla, TraceLoc.tla (Plainly)',
     'The errors of C22, with distinct values; exact comparison with the text that the specification gives. Errors about node types can not be constructed from outside.',
     ['Display implementations of the errors'])

NOT = []
NAMES = {p['id'] for p in P}
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']},
                            'why_tests_cant': p['why'],
                            'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                                        'observe_at': p['observe'], 'hook_needed': None}}, ensure_ascii=False) + '\n')
checks = [{'property': p['id'], 'quick_cmd': 'python3 check.py %s quick' % p['id'], 'thorough_cmd': 'python3 check.py %s thorough' % p['id'],
           'technique': 'TLA+ specification (%s), checked with TLC; histories of the real code validated against it' % p['spec'],
           'level': 'model_checking', 'level_note': p['note'] + ' Trusts ICU4X, the driver and TLC.'} for p in P]
json.dump({'version': 1, 'setup_cmd': 'python3 check.py setup', 'checks': checks, 'not_applicable': NOT,
           'notes': 'No hooks in /repo: the driver in harness/ uses the public API only. See DESIGN.md.'},
          open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
for p in P:
    assert len(p['title']) <= 80, p['id']
