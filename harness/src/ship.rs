//! The errors of the crates, made from their description.
use crate::{s, R};
use i18n_lexer::{IcuError, LexerError};
use i18n_localiser::{CommandError, FormatterError, LocaliserError, TreeError};
use i18n_provider::ProviderError;
use i18n_provider_sqlite3::{ProviderSqlite3Error, SchemaError};
use i18n_utility::{
    LanguageTagRegistry, LocalisationData, LocalisationErrorTrait, LocalisationTrait, RegistryError,
};
use serde_json::{json, Value};

/// Any error; localised as itself.
#[derive(Debug)]
pub struct AnyError(Box<dyn LocalisationTrait>, pub String);
impl std::fmt::Display for AnyError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.1)
    }
}
impl std::error::Error for AnyError {}
impl LocalisationTrait for AnyError {
    fn localisation_data(&self) -> LocalisationData {
        self.0.localisation_data()
    }
}
impl LocalisationErrorTrait for AnyError {}

fn a(e: &Value, n: usize) -> String {
    e["a"][n]["v"].as_str().unwrap_or_else(|| panic!("tool: value {n} of {e}")).to_string()
}
fn u(e: &Value, n: usize) -> usize {
    a(e, n).parse().expect("tool: number")
}
fn inner(e: &Value) -> &Value {
    &e["in"][0]
}
fn io(e: &Value) -> std::io::Error {
    std::io::Error::new(std::io::ErrorKind::Other, a(e, 0))
}
fn sqlite(e: &Value) -> rusqlite::Error {
    rusqlite::Error::InvalidParameterName(a(e, 0))
}

fn registry(e: &Value) -> RegistryError {
    match s(e, "V") {
        "LanguageIdentifier" | "Locale" => {
            LanguageTagRegistry::new().tag("1").expect_err("tool: a tag")
        }
        v => panic!("tool: RegistryError::{v}"),
    }
}

fn lexer(e: &Value) -> LexerError {
    match s(e, "V") {
        "NoGrammar" => LexerError::NoGrammar,
        "EmptyString" => LexerError::EmptyString,
        v => panic!("tool: LexerError::{v}"),
    }
}

fn schema(e: &Value) -> SchemaError {
    match s(e, "V") {
        "Sqlite3" => SchemaError::Sqlite3(R::new(sqlite(e))),
        "MissingTable" => SchemaError::MissingTable(a(e, 0)),
        "Version" => SchemaError::Version(a(e, 0), a(e, 1)),
        "MissingVersion" => SchemaError::MissingVersion(a(e, 0)),
        "MissingColumn" => SchemaError::MissingColumn(a(e, 0), a(e, 1)),
        "ColumnProperty" => SchemaError::ColumnProperty(a(e, 0), a(e, 1), a(e, 2)),
        "ColumnDefault" => SchemaError::ColumnDefault(a(e, 0), a(e, 1), a(e, 2)),
        "ColumnMismatch" => SchemaError::ColumnMismatch(a(e, 0), a(e, 1)),
        v => panic!("tool: SchemaError::{v}"),
    }
}

fn sqlite3(e: &Value) -> ProviderSqlite3Error {
    match s(e, "V") {
        "Io" => ProviderSqlite3Error::Io(R::new(io(e))),
        "Sqlite3" => ProviderSqlite3Error::Sqlite3(R::new(sqlite(e))),
        "NotDirectory" => ProviderSqlite3Error::NotDirectory(a(e, 0).into()),
        "NoSqlite3Files" => ProviderSqlite3Error::NoSqlite3Files(a(e, 0).into()),
        "PathConversion" => ProviderSqlite3Error::PathConversion,
        "NotExists" => ProviderSqlite3Error::NotExists(a(e, 0).into()),
        "SchemaInvalid" => ProviderSqlite3Error::SchemaInvalid(schema(inner(e))),
        v => panic!("tool: ProviderSqlite3Error::{v}"),
    }
}

fn provider(e: &Value) -> ProviderError {
    match s(e, "V") {
        "ComponentNotFound" => ProviderError::ComponentNotFound(a(e, 0)),
        "LanguageTagRegistry" => ProviderError::LanguageTagRegistry(registry(inner(e))),
        "DefaultLanguage" => ProviderError::DefaultLanguage(a(e, 0)),
        "InvalidDefaultLanguage" => ProviderError::InvalidDefaultLanguage(a(e, 0)),
        "DefaultLanguageCount" => ProviderError::DefaultLanguageCount(a(e, 0), a(e, 1)),
        "Custom" => ProviderError::Custom(R::new(Box::new(sqlite3(inner(e))))),
        v => panic!("tool: ProviderError::{v}"),
    }
}

fn tree(e: &Value) -> TreeError {
    match s(e, "V") {
        "LexerError" => TreeError::Lexer(lexer(inner(e))),
        "EndedAbruptly" => TreeError::EndedAbruptly,
        "UniquePattern" => TreeError::UniquePattern(a(e, 0)),
        "MultiNumberSign" => TreeError::MultiNumberSign(u(e, 0)),
        "UniqueNamed" => TreeError::UniqueNamed(a(e, 0)),
        v => panic!("tool: TreeError::{v}"),
    }
}

fn command(e: &Value) -> CommandError {
    match s(e, "V") {
        "Custom" => CommandError::Custom(R::new(Box::new(make(inner(e))))),
        "AlreadyExists" => CommandError::AlreadyExists(a(e, 0)),
        "NotFound" => CommandError::NotFound(a(e, 0)),
        "ParameterMissing" => CommandError::ParameterMissing(a(e, 0), u(e, 1)),
        "InvalidType" => CommandError::InvalidType(a(e, 0), u(e, 1)),
        v => panic!("tool: CommandError::{v}"),
    }
}

fn formatter(e: &Value) -> FormatterError {
    match s(e, "V") {
        "Localiser" => FormatterError::Localiser(Box::new(localiser(inner(e)))),
        "Tree" => FormatterError::Tree(tree(inner(e))),
        "Command" => FormatterError::Command(command(inner(e))),
        "Locale" => FormatterError::Locale(
            "1".parse::<icu_locid::LanguageIdentifier>().expect_err("tool: a language"),
        ),
        "Calendar" => FormatterError::Calendar(icu_calendar::CalendarError::MissingCalendar),
        "ParseInt" => FormatterError::ParseInt(a(e, 0).parse::<i32>().expect_err("tool: a number")),
        "FixedDecimal" => FormatterError::FixedDecimal(fixed_decimal::Error::Limit),
        "InvalidRoot" => FormatterError::InvalidRoot,
        "NoGrammar" => FormatterError::NoGrammar,
        "PatternNamed" => FormatterError::PatternNamed(a(e, 0)),
        "PatternPart" => FormatterError::PatternPart(a(e, 0), u(e, 1)),
        "InvalidOptionValue" => FormatterError::InvalidOptionValue(a(e, 0), a(e, 1), a(e, 2)),
        "InvalidKeyword" => FormatterError::InvalidKeyword(a(e, 0), a(e, 1)),
        "SelectorNamed" => FormatterError::SelectorNamed(a(e, 0), a(e, 1), a(e, 2)),
        "SelectorOther" => FormatterError::SelectorOther(a(e, 0), a(e, 1)),
        "InvalidOption" => FormatterError::InvalidOption(a(e, 0), a(e, 1), a(e, 2)),
        "InvalidSelector" => FormatterError::InvalidSelector(a(e, 0), a(e, 1), a(e, 2)),
        "NumberSignString" => FormatterError::NumberSignString(u(e, 0)),
        "SelectorsIndex" => FormatterError::SelectorsIndex(u(e, 0)),
        "SelectorsIndexNamed" => FormatterError::SelectorsIndexNamed(a(e, 0), u(e, 1)),
        "PlaceholderValue" => FormatterError::PlaceholderValue(a(e, 0), a(e, 1)),
        "InvalidValue" => FormatterError::InvalidValue(a(e, 0)),
        "NamedStringIdentifier" => FormatterError::NamedStringIdentifier(a(e, 0)),
        "NoIcuProvider" => FormatterError::NoIcuProvider,
        "NeverReached" => FormatterError::NeverReached,
        v => panic!("tool: FormatterError::{v}"),
    }
}

fn localiser(e: &Value) -> LocaliserError {
    match s(e, "V") {
        "Registry" => LocaliserError::Registry(registry(inner(e))),
        "Formatter" => LocaliserError::Formatter(formatter(inner(e))),
        "Provider" => LocaliserError::Provider(provider(inner(e))),
        "StringNotFound" => {
            LocaliserError::StringNotFound(a(e, 0), a(e, 1), a(e, 2), a(e, 3) == "true")
        }
        "CacheEntry" => LocaliserError::CacheEntry(a(e, 0), a(e, 1)),
        "NeverReached" => LocaliserError::NeverReached,
        v => panic!("tool: LocaliserError::{v}"),
    }
}

pub fn make(e: &Value) -> AnyError {
    fn any<E: LocalisationTrait + std::fmt::Display + 'static>(x: E) -> AnyError {
        let shown = x.to_string();
        AnyError(Box::new(x), shown)
    }
    match s(e, "T") {
        "IcuError" => any(match s(e, "V") {
            "Grapheme" => IcuError::Grapheme,
            "Syntax" => IcuError::Syntax,
            "WhiteSpace" => IcuError::WhiteSpace,
            v => panic!("tool: IcuError::{v}"),
        }),
        "LexerError" => any(lexer(e)),
        "RegistryError" => any(registry(e)),
        "ProviderError" => any(provider(e)),
        "ProviderSqlite3Error" => any(sqlite3(e)),
        "SchemaError" => any(schema(e)),
        "TreeError" => any(tree(e)),
        "CommandError" => any(command(e)),
        "FormatterError" => any(formatter(e)),
        "LocaliserError" => any(localiser(e)),
        t => panic!("tool: error type {t}"),
    }
}

/// What a foreign error says about itself.
pub fn foreign(name: &str, arg: &str) -> String {
    let e = json!({"a":[{"v":arg}]});
    match name {
        "io" => io(&e).to_string(),
        "sqlite" => sqlite(&e).to_string(),
        "language" => "1".parse::<icu_locid::LanguageIdentifier>().unwrap_err().to_string(),
        "tag" => {
            #[cfg(not(feature = "ext"))]
            let x = icu_locid::LanguageIdentifier::try_from_bytes(b"1").unwrap_err().to_string();
            #[cfg(feature = "ext")]
            let x = icu_locid::Locale::try_from_bytes(b"1").unwrap_err().to_string();
            x
        }
        "calendar" => icu_calendar::CalendarError::MissingCalendar.to_string(),
        "int" => arg.parse::<i32>().unwrap_err().to_string(),
        "limit" => fixed_decimal::Error::Limit.to_string(),
        other => panic!("tool: foreign {other}"),
    }
}

/// An error that occurred, in the notation of the scenarios; null if it cannot be told.
pub fn describe(e: &LocaliserError) -> Value {
    fn d(t: &str, v: &str, a: Vec<(&str, String)>, inner: Vec<Value>) -> Value {
        let a: Vec<Value> = a.into_iter().map(|(k, v)| json!({"k":k,"v":v})).collect();
        json!({"T":t,"V":v,"a":a,"in":inner})
    }
    fn st(x: &impl std::fmt::Display) -> (&'static str, String) {
        ("str", x.to_string())
    }
    fn un(x: &usize) -> (&'static str, String) {
        ("uns", x.to_string())
    }
    fn tree(e: &TreeError) -> Value {
        let t = "TreeError";
        match e {
            TreeError::Lexer(x) => {
                let v = match x {
                    LexerError::NoGrammar => "NoGrammar",
                    LexerError::EmptyString => "EmptyString",
                    _ => return Value::Null,
                };
                d(t, "LexerError", vec![], vec![d("LexerError", v, vec![], vec![])])
            }
            TreeError::EndedAbruptly => d(t, "EndedAbruptly", vec![], vec![]),
            TreeError::InvalidToken(a, b, c) => {
                d(t, "InvalidToken", vec![st(&format!("{a:?}")), un(b), st(c)], vec![])
            }
            TreeError::UniquePattern(a) => d(t, "UniquePattern", vec![st(a)], vec![]),
            TreeError::MultiNumberSign(a) => d(t, "MultiNumberSign", vec![un(a)], vec![]),
            TreeError::UniqueNamed(a) => d(t, "UniqueNamed", vec![st(a)], vec![]),
            _ => Value::Null,
        }
    }
    fn command(e: &CommandError) -> Value {
        let t = "CommandError";
        match e {
            CommandError::AlreadyExists(a) => d(t, "AlreadyExists", vec![st(a)], vec![]),
            CommandError::NotFound(a) => d(t, "NotFound", vec![st(a)], vec![]),
            CommandError::ParameterMissing(a, b) => d(t, "ParameterMissing", vec![st(a), un(b)], vec![]),
            CommandError::InvalidType(a, b) => d(t, "InvalidType", vec![st(a), un(b)], vec![]),
            _ => Value::Null,
        }
    }
    fn formatter(e: &FormatterError) -> Value {
        use FormatterError as F;
        let t = "FormatterError";
        // the name of a kind of node is its Debug form
        let node = |v: &str, x: &dyn std::fmt::Debug| d(t, v, vec![("str", format!("{x:?}"))], vec![]);
        match e {
            F::Tree(x) => d(t, "Tree", vec![], vec![tree(x)]),
            F::Command(x) => d(t, "Command", vec![], vec![command(x)]),
            F::Locale(x) => d(t, "Locale", vec![st(x)], vec![]),
            F::Calendar(x) => d(t, "Calendar", vec![st(x)], vec![]),
            F::ParseInt(x) => d(t, "ParseInt", vec![st(x)], vec![]),
            F::Decimal(x) => d(t, "Decimal", vec![st(x)], vec![]),
            F::DateTime(x) => d(t, "DateTime", vec![st(x)], vec![]),
            F::PluralRules(x) => d(t, "PluralRules", vec![st(x)], vec![]),
            F::FixedDecimal(x) => d(t, "FixedDecimal", vec![st(x)], vec![]),
            F::NoGrammar => d(t, "NoGrammar", vec![], vec![]),
            F::InvalidRoot => d(t, "InvalidRoot", vec![], vec![]),
            F::RetrieveChildren(x) => node("RetrieveChildren", x),
            F::NodeNotFound(x) => node("NodeNotFound", x),
            F::FirstChild(x) => node("FirstChild", x),
            F::RetrieveNodeData(x) => node("RetrieveNodeData", x),
            F::RetrieveNodeToken(x) => node("RetrieveNodeToken", x),
            F::LastChild(x) => node("LastChild", x),
            F::InvalidNode(x) => node("InvalidNode", x),
            F::NoChildren(x) => node("NoChildren", x),
            F::PatternNamed(a) => d(t, "PatternNamed", vec![st(a)], vec![]),
            F::PatternPart(a, b) => d(t, "PatternPart", vec![st(a), un(b)], vec![]),
            F::InvalidOptionValue(a, b, c) => d(t, "InvalidOptionValue", vec![st(a), st(b), st(c)], vec![]),
            F::InvalidKeyword(a, b) => d(t, "InvalidKeyword", vec![st(a), st(b)], vec![]),
            F::SelectorNamed(a, b, c) => d(t, "SelectorNamed", vec![st(a), st(b), st(c)], vec![]),
            F::SelectorOther(a, b) => d(t, "SelectorOther", vec![st(a), st(b)], vec![]),
            F::InvalidOption(a, b, c) => d(t, "InvalidOption", vec![st(a), st(b), st(c)], vec![]),
            F::InvalidSelector(a, b, c) => d(t, "InvalidSelector", vec![st(a), st(b), st(c)], vec![]),
            F::NumberSignString(a) => d(t, "NumberSignString", vec![un(a)], vec![]),
            F::SelectorsIndex(a) => d(t, "SelectorsIndex", vec![un(a)], vec![]),
            F::SelectorsIndexNamed(a, b) => d(t, "SelectorsIndexNamed", vec![st(a), un(b)], vec![]),
            F::PlaceholderValue(a, b) => d(t, "PlaceholderValue", vec![st(a), st(b)], vec![]),
            F::InvalidValue(a) => d(t, "InvalidValue", vec![st(a)], vec![]),
            F::NamedStringIdentifier(a) => d(t, "NamedStringIdentifier", vec![st(a)], vec![]),
            _ => Value::Null,
        }
    }
    let t = "LocaliserError";
    match e {
        LocaliserError::Formatter(x) => d(t, "Formatter", vec![], vec![formatter(x)]),
        LocaliserError::Provider(ProviderError::ComponentNotFound(a)) => d(
            t,
            "Provider",
            vec![],
            vec![d("ProviderError", "ComponentNotFound", vec![st(a)], vec![])],
        ),
        LocaliserError::StringNotFound(a, b, c, f) => {
            d(t, "StringNotFound", vec![st(a), st(b), st(c), st(f)], vec![])
        }
        LocaliserError::CacheEntry(a, b) => d(t, "CacheEntry", vec![st(a), st(b)], vec![]),
        _ => Value::Null,
    }
}
