#![allow(dead_code, unused_imports)]
pub use i18n_lexer::{DataProvider, IcuDataProvider, LexerIterator, TokenType};
pub use i18n_localiser::{
    english_a_or_an, file_path, CommandError, CommandRegistry, Localiser, LocaliserError,
};
pub use i18n_provider::{
    ComponentDetails, IdentifierDetails, LanguageData, LocalisationProviderTrait, ProviderError,
    RepositoryDetails,
};
pub use i18n_provider_sqlite3::LocalisationProviderSqlite3;
pub use i18n_utility::{
    LanguageTag, LanguageTagRegistry, LocalisationData, PlaceholderValue, TaggedString,
};
pub use std::collections::HashMap;
use std::path::{Path, PathBuf};

#[cfg(not(feature = "sync"))]
pub use std::rc::Rc as R;
#[cfg(feature = "sync")]
pub use std::sync::Arc as R;

/// Strings in memory: (component, identifier, language) to string, and the default language of each component.
pub struct Memory {
    strings: Vec<(String, String, String, String)>,
    defaults: Vec<(String, String)>,
    registry: R<LanguageTagRegistry>,
}

impl LocalisationProviderTrait for Memory {
    fn string(
        &self,
        component: &str,
        identifier: &str,
        language_tag: &R<LanguageTag>,
    ) -> Result<Option<(String, R<LanguageTag>)>, ProviderError> {
        self.component_details(component)?;
        let mut tag = language_tag.as_str();
        loop {
            for x in &self.strings {
                if x.0 == component && x.1 == identifier && x.2 == tag {
                    return Ok(Some((x.3.clone(), self.registry.tag(tag)?)));
                }
            }
            match tag.rsplit_once('-') {
                None => return Ok(None),
                Some(x) => tag = x.0,
            }
        }
    }

    fn string_exact_match(
        &self,
        _: &str,
        _: &str,
        _: &R<LanguageTag>,
    ) -> Result<Option<(String, R<LanguageTag>)>, ProviderError> {
        unimplemented!()
    }

    fn strings(
        &self,
        _: &str,
        _: &str,
        _: &R<LanguageTag>,
    ) -> Result<Vec<(String, R<LanguageTag>)>, ProviderError> {
        unimplemented!()
    }

    fn identifier_details(&self, _: &str, _: &str) -> Result<IdentifierDetails, ProviderError> {
        unimplemented!()
    }

    fn component_details(&self, component: &str) -> Result<R<ComponentDetails>, ProviderError> {
        match self.defaults.iter().find(|x| x.0 == component) {
            None => Err(ProviderError::ComponentNotFound(component.to_string())),
            Some(x) => Ok(R::new(ComponentDetails {
                languages: HashMap::new(),
                default: self.registry.tag(&x.1)?,
                total_strings: 0,
            })),
        }
    }

    fn repository_details(&self) -> Result<R<RepositoryDetails>, ProviderError> {
        unimplemented!()
    }
}

pub fn icu() -> R<IcuDataProvider> {
    R::new(IcuDataProvider::try_new(DataProvider::Internal).unwrap())
}

pub fn localiser(
    strings: &[(&str, &str, &str, &str)],
    defaults: &[(&str, &str)],
    commands: CommandRegistry,
    fallback: bool,
    caching: bool,
    language: &str,
) -> Localiser {
    let registry = R::new(LanguageTagRegistry::new());
    let memory = Memory {
        strings: strings
            .iter()
            .map(|x| (x.0.into(), x.1.into(), x.2.into(), x.3.into()))
            .collect(),
        defaults: defaults.iter().map(|x| (x.0.into(), x.1.into())).collect(),
        registry: R::clone(&registry),
    };
    Localiser::try_new(
        &icu(),
        &registry,
        Box::new(memory),
        &R::new(commands),
        fallback,
        caching,
        language,
    )
    .unwrap()
}

pub fn values(list: &[(&str, PlaceholderValue)]) -> HashMap<String, PlaceholderValue> {
    list.iter().map(|x| (x.0.to_string(), x.1.clone())).collect()
}

pub fn text(x: &str) -> PlaceholderValue {
    PlaceholderValue::String(x.to_string())
}

/// Localises one pattern: the text, or the error.
pub fn one(pattern: &str, language: &str, list: &[(&str, PlaceholderValue)]) -> Result<String, String> {
    let registry = CommandRegistry::new();
    registry.insert("file_path", file_path).unwrap();
    registry.insert("show", show).unwrap();
    let l = localiser(
        &[("c", "i", language, pattern)],
        &[("c", language)],
        registry,
        false,
        false,
        language,
    );
    match l.format_with_defaults("c", "i", &values(list)) {
        Ok(x) => Ok(x.0.to_string()),
        Err(e) => Err(format!("{:?}", e)),
    }
}

/// A command that shows its parameters.
pub fn show(parameters: Vec<PlaceholderValue>) -> Result<String, CommandError> {
    let mut out = String::new();
    for p in &parameters[1..] {
        match p {
            PlaceholderValue::String(s) => out.push_str(&format!("[{}]", s)),
            _ => out.push_str("[?]"),
        }
    }
    Ok(out)
}

pub fn scratch() -> PathBuf {
    PathBuf::from(std::env::args().nth(1).unwrap())
}


/// A database file with the schema of the one the repository ships for the tests, emptied and filled again.
/// strings: (component, identifier, language, string); contributors: (component, language, name); defaults: (component, language)
pub fn database(
    file: &Path,
    strings: &[(&str, &str, &str, &str)],
    contributors: &[(&str, &str, &str)],
    defaults: &[(&str, &str)],
) -> rusqlite::Connection {
    std::fs::copy(template(), file).unwrap();
    let c = rusqlite::Connection::open(file).unwrap();
    c.execute_batch("PRAGMA foreign_keys=OFF; DELETE FROM pattern; DELETE FROM contributor; DELETE FROM component;")
        .unwrap();
    for x in defaults {
        c.execute("INSERT INTO component (identifier, languageTag, added) VALUES (?1, ?2, '2024-01-01')", [x.0, x.1]).unwrap();
    }
    for x in contributors {
        c.execute("INSERT INTO contributor (component, languageTag, contributor) VALUES (?1, ?2, ?3)", [x.0, x.1, x.2]).unwrap();
    }
    for x in strings {
        c.execute("INSERT INTO pattern (component, identifier, languageTag, string) VALUES (?1, ?2, ?3, ?4)", [x.0, x.1, x.2, x.3]).unwrap();
    }
    c
}

fn template() -> PathBuf {
    PathBuf::from(std::env::var("DEMO_REPO").unwrap()).join("crates/lexer/l10n/i18n_lexer.sqlite3")
}

pub fn provider(dir: &Path, registry: &R<LanguageTagRegistry>) -> Result<LocalisationProviderSqlite3, String> {
    LocalisationProviderSqlite3::try_new(dir.to_path_buf(), registry, false).map_err(|e| format!("{:?}", e))
}
