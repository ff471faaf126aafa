//! Localiser scenarios: histories of calls on one `Localiser`.
use crate::{data, guard, ob, prov, s, ship, unvalue, value, values, variant, Ctx, R};
use i18n_localiser::{
    english_a_or_an, file_path, CommandError, CommandRegistry, Localiser, LocaliserError,
};
use i18n_provider::{
    ComponentDetails, IdentifierDetails, LanguageData, LocalisationProviderTrait, ProviderError,
    ProviderErrorTrait,
    RepositoryDetails,
};
use i18n_utility::{
    LanguageTag, LanguageTagRegistry, LocalisationData, LocalisationErrorTrait, LocalisationTrait,
    PlaceholderValue, ScriptData,
};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::HashMap;
use std::sync::{Arc, Mutex};

type Key = (String, String, String);
/// The texts, the default languages, and the accesses that fail at present (kind, component, language).
type Db = Arc<Mutex<(HashMap<Key, String>, HashMap<String, String>, HashMap<Key, String>)>>;

/// In-memory localisation provider whose contents a scenario may change between calls.
struct Mock {
    db: Db,
    registry: R<LanguageTagRegistry>,
}

impl Mock {
    fn failing(&self, kind: &str, component: &str, language: &str) -> Result<(), ProviderError> {
        let key = (kind.to_string(), component.to_string(), language.to_string());
        match self.db.lock().unwrap().2.get(&key).map(String::as_str) {
            None => Ok(()),
            Some("DefaultLanguage") => Err(ProviderError::DefaultLanguage(component.into())),
            Some("ComponentNotFound") => Err(ProviderError::ComponentNotFound(component.into())),
            Some("Custom") => {
                let d = LocalisationData { component: "c".into(), identifier: "i".into(), values: None };
                Err(ProviderError::Custom(R::new(Box::new(AppError(d)))))
            }
            Some(other) => panic!("tool: failure {other}"),
        }
    }
    fn details(&self, component: &str) -> Result<ComponentDetails, ProviderError> {
        let db = self.db.lock().unwrap();
        let Some(default) = db.1.get(component) else {
            return Err(ProviderError::ComponentNotFound(component.into()));
        };
        let default = self.registry.tag(default)?;
        let mut languages = HashMap::new();
        languages.insert(
            R::clone(&default),
            LanguageData { count: 1, ratio: 1.0, contributors: vec![] },
        );
        Ok(ComponentDetails { languages, default, total_strings: 1 })
    }
}

impl LocalisationProviderTrait for Mock {
    fn string(
        &self,
        component: &str,
        identifier: &str,
        language_tag: &R<LanguageTag>,
    ) -> Result<Option<(String, R<LanguageTag>)>, ProviderError> {
        self.details(component)?;
        self.failing("string", component, language_tag.as_str())?;
        let mut tag = language_tag.as_str().to_string();
        loop {
            let found = self
                .db
                .lock()
                .unwrap()
                .0
                .get(&(component.to_string(), identifier.to_string(), tag.clone()))
                .cloned();
            if let Some(x) = found {
                return Ok(Some((x, self.registry.tag(&tag)?)));
            }
            match tag.rsplit_once('-') {
                None => return Ok(None),
                Some(x) => tag = x.0.to_string(),
            }
        }
    }
    fn string_exact_match(
        &self,
        component: &str,
        identifier: &str,
        language_tag: &R<LanguageTag>,
    ) -> Result<Option<(String, R<LanguageTag>)>, ProviderError> {
        self.string(component, identifier, language_tag)
    }
    fn strings(
        &self,
        component: &str,
        identifier: &str,
        language_tag: &R<LanguageTag>,
    ) -> Result<Vec<(String, R<LanguageTag>)>, ProviderError> {
        Ok(self.string(component, identifier, language_tag)?.into_iter().collect())
    }
    fn identifier_details(&self, component: &str, _: &str) -> Result<IdentifierDetails, ProviderError> {
        let d = self.details(component)?;
        self.failing("details", component, "")?;
        Ok(IdentifierDetails { languages: d.languages.keys().cloned().collect(), default: d.default })
    }
    fn component_details(&self, component: &str) -> Result<R<ComponentDetails>, ProviderError> {
        let d = self.details(component)?;
        self.failing("details", component, "")?;
        Ok(R::new(d))
    }
    fn repository_details(&self) -> Result<R<RepositoryDetails>, ProviderError> {
        Err(ProviderError::DefaultLanguage("mock".into()))
    }
}

/// An error of an application, which is to be localised.
#[derive(Debug)]
struct AppError(LocalisationData);
impl std::fmt::Display for AppError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "app error")
    }
}
impl std::error::Error for AppError {}
impl LocalisationTrait for AppError {
    fn localisation_data(&self) -> LocalisationData {
        self.0.clone()
    }
}
impl LocalisationErrorTrait for AppError {}
impl ProviderErrorTrait for AppError {}

fn join(p: &[PlaceholderValue], open: &str) -> String {
    let x: Vec<String> = p
        .iter()
        .map(|v| {
            let v = unvalue(v);
            format!("{}:{}", s(&v, "k"), v["v"].as_str().unwrap_or("?"))
        })
        .collect();
    format!("{open}{}>", x.join(";"))
}

/// Shows the parameters it received.
fn echo(p: Vec<PlaceholderValue>) -> Result<String, CommandError> {
    Ok(join(&p, "<"))
}
/// Another one, to tell functions apart.
fn echo2(p: Vec<PlaceholderValue>) -> Result<String, CommandError> {
    Ok(join(&p, "<<"))
}
fn fail(_: Vec<PlaceholderValue>) -> Result<String, CommandError> {
    Err(CommandError::InvalidType("fail".into(), 7))
}

fn function(name: &str) -> fn(Vec<PlaceholderValue>) -> Result<String, CommandError> {
    match name {
        "echo" => echo,
        "echo2" => echo2,
        "fail" => fail,
        "file_path" => file_path,
        "english_a_or_an" => english_a_or_an,
        _ => panic!("tool: function {name}"),
    }
}

fn error(e: &LocaliserError) -> Value {
    match e {
        LocaliserError::StringNotFound(c, i, t, f) => {
            json!({"r":"err","e":"StringNotFound","c":c,"i":i,"t":t,"fb":f})
        }
        LocaliserError::Provider(p) => json!({"r":"err","e":"Provider","p":variant(p)}),
        other => json!({"r":"err","e":variant(other),"d":format!("{other:?}")}),
    }
}

fn outcome(r: Result<(R<String>, R<LanguageTag>), LocaliserError>) -> Value {
    match r {
        Ok((x, t)) => json!({"r":"ok","s":x.as_str(),"t":t.as_str()}),
        Err(e) => {
            let o = error(&e);
            LAST.with(|x| *x.borrow_mut() = Some(e));
            o
        }
    }
}

thread_local! {
    /// The error of the last call that failed.
    static LAST: RefCell<Option<LocaliserError>> = const { RefCell::new(None) };
}

pub fn script(x: Option<ScriptData>) -> Value {
    match x {
        None => json!({"r":"ok","some":false}),
        Some(x) => json!({"r":"ok","some":true,"cat":format!("{:?}",x.category),"hist":x.historic,
            "dirs":x.directions.iter().map(|d| format!("{d:?}")).collect::<Vec<_>>(),
            "line":x.directions.iter().map(|d| format!("{:?}",d.line())).collect::<Vec<_>>(),
            "graph":x.directions.iter().map(|d| format!("{:?}",d.grapheme())).collect::<Vec<_>>(),
            "pair":x.directions.iter().map(|d| format!("{:?}{:?}",d.directions().0,d.directions().1)).collect::<Vec<_>>()}),
    }
}

fn mock(sc: &Value) -> Db {
    let mut rows = HashMap::new();
    for r in sc["db"]["rows"].as_array().expect("tool: rows") {
        let f = |n: usize| r[n].as_str().unwrap().to_string();
        rows.insert((f(0), f(1), f(2)), f(3));
    }
    let mut defaults = HashMap::new();
    for (k, v) in sc["db"]["def"].as_object().expect("tool: def") {
        defaults.insert(k.clone(), v.as_str().unwrap().to_string());
    }
    Arc::new(Mutex::new((rows, defaults, HashMap::new())))
}

pub fn run(ctx: &Ctx, sc: &Value) -> Value {
    let registry = R::new(LanguageTagRegistry::new());
    let commands = R::new(CommandRegistry::new());
    for name in ["echo", "fail", "file_path", "english_a_or_an"] {
        commands.insert(name, function(name)).expect("tool: command");
    }
    let db = mock(sc);
    let mut dir = None;
    let provider: Box<dyn LocalisationProviderTrait> = if sc["files"].is_array() {
        let d = prov::build(ctx, sc);
        for x in sc["ship"].as_array().unwrap_or(&vec![]) {
            let from = std::path::Path::new(x.as_str().unwrap());
            std::fs::copy(from, d.join(from.file_name().unwrap())).expect("tool: shipped file");
        }
        let p = i18n_provider_sqlite3::LocalisationProviderSqlite3::try_new(d.clone(), &registry, false);
        dir = Some(d);
        match p {
            Ok(p) => Box::new(p),
            Err(e) => {
                prov::remove(&dir);
                return json!({"open":{"r":"err","e":variant(&e)},"obs":[]});
            }
        }
    } else {
        Box::new(Mock { db: Arc::clone(&db), registry: R::clone(&registry) })
    };
    let mut made = None;
    let open = guard(|| {
        match Localiser::try_new(
            &ctx.icu,
            &registry,
            provider,
            &commands,
            sc["fb"].as_bool().unwrap(),
            sc["ca"].as_bool().unwrap(),
            s(sc, "tag"),
        ) {
            Ok(x) => {
                made = Some(x);
                json!({"r":"ok"})
            }
            Err(e) => error(&e),
        }
    });
    let Some(localiser) = made else {
        prov::remove(&dir);
        return json!({"open":open,"obs":[]});
    };
    LAST.with(|x| *x.borrow_mut() = None);
    let mut obs = Vec::new();
    for st in sc["steps"].as_array().expect("tool: steps") {
        let mut o = guard(|| step(&localiser, &registry, &db, st));
        if sc["why"] == true && o["r"] == "err" {
            o["what"] = LAST.with(|x| x.borrow().as_ref().map_or(Value::Null, ship::describe));
        }
        obs.push(o);
    }
    prov::remove(&dir);
    json!({"open":open,"obs":obs})
}

fn step(l: &Localiser, reg: &R<LanguageTagRegistry>, db: &Db, st: &Value) -> Value {
    // a tag is as good if it is of another registry
    let tag = || match st["far"].as_bool() {
        Some(true) => LanguageTagRegistry::new().tag(s(st, "t")).expect("a tag was refused"),
        _ => reg.tag(s(st, "t")).expect("a tag was refused"),
    };
    let (fb, ca) = (ob(st, "fb"), ob(st, "ca"));
    match s(st, "op") {
        "format" => outcome(l.format(s(st, "c"), s(st, "i"), &values(reg, &st["v"]), &tag(), fb, ca)),
        "formatd" => outcome(l.format_with_defaults(s(st, "c"), s(st, "i"), &values(reg, &st["v"]))),
        "literal" => outcome(l.literal(s(st, "c"), s(st, "i"), &tag(), fb, ca)),
        "literald" => outcome(l.literal_with_defaults(s(st, "c"), s(st, "i"))),
        "data" => outcome(l.format_localisation_data(&data(reg, &st["d"]), &tag(), fb, ca)),
        "datad" => outcome(l.format_localisation_data_with_defaults(&data(reg, &st["d"]))),
        "err" => outcome(l.format_error(&AppError(data(reg, &st["d"])), &tag(), fb, ca)),
        "errd" => outcome(l.format_error_with_defaults(&AppError(data(reg, &st["d"])))),
        "e" | "ed" => {
            let e = ship::make(&st["e"]);
            let mut o = if s(st, "op") == "e" {
                outcome(l.format_error(&e, &tag(), fb, ca))
            } else {
                outcome(l.format_error_with_defaults(&e))
            };
            // what the error itself says
            o["plain"] = json!(e.1);
            o
        }
        "last" => {
            // the error of the last call that failed, itself localised
            let Some(e) = LAST.with(|x| x.borrow_mut().take()) else { return json!({"r":"none"}) };
            let mut o = outcome(l.format_error(&e, &tag(), fb, ca));
            o["what"] = ship::describe(&e);
            o["plain"] = json!(e.to_string());
            o
        }
        "defaults" => {
            let t = if st["t"].is_null() { None } else { Some(tag()) };
            match l.defaults(t, fb, ca) {
                Ok(()) => json!({"r":"ok"}),
                Err(e) => error(&e),
            }
        }
        // a new localiser with the parts of this one
        "make" => {
            let provider = Box::new(Mock { db: Arc::clone(db), registry: R::clone(reg) });
            let made = Localiser::try_new(
                l.icu_data_provider(),
                l.language_tag_registry(),
                provider,
                l.command_registry(),
                fb.unwrap_or(false),
                ca.unwrap_or(false),
                s(st, "t"),
            );
            match made {
                Ok(x) => json!({"r":"ok","t":x.default_language().as_str()}),
                Err(e) => error(&e),
            }
        }
        "deflang" => json!({"r":"ok","t":l.default_language().as_str()}),
        "script" => script(l.script_data()),
        "scriptfor" => script(l.script_data_for_language_tag(&tag())),
        "put" => {
            let key = (s(st, "c").to_string(), s(st, "i").to_string(), s(st, "t").to_string());
            let mut g = db.lock().unwrap();
            match st["s"].as_str() {
                None => {
                    g.0.remove(&key);
                }
                Some(x) => {
                    g.0.insert(key, x.to_string());
                }
            }
            json!({"r":"ok"})
        }
        "putdef" => {
            let mut g = db.lock().unwrap();
            g.1.insert(s(st, "c").to_string(), s(st, "t").to_string());
            json!({"r":"ok"})
        }
        "fail" => {
            let key = (s(st, "n").to_string(), s(st, "c").to_string(), st["t"].as_str().unwrap_or("").to_string());
            let mut g = db.lock().unwrap();
            match s(st, "f") {
                "" => {
                    g.2.remove(&key);
                }
                x => {
                    g.2.insert(key, x.to_string());
                }
            }
            json!({"r":"ok"})
        }
        "cmdinsert" => cmd(l.command_registry(), reg, st),
        "cmdget" | "cmdlist" | "cmdcall" => cmd(l.command_registry(), reg, st),
        other => panic!("tool: op {other}"),
    }
}

fn cmd(c: &R<CommandRegistry>, reg: &R<LanguageTagRegistry>, st: &Value) -> Value {
    match s(st, "op") {
        "cmdinsert" => match c.insert(s(st, "n"), function(s(st, "f"))) {
            Ok(()) => json!({"r":"ok"}),
            Err(e) => json!({"r":"err","e":variant(&e)}),
        },
        "cmdget" => match c.command(s(st, "n")) {
            Ok(_) => json!({"r":"ok"}),
            Err(e) => json!({"r":"err","e":variant(&e)}),
        },
        "cmdlist" => json!({"r":"ok","l":c.list()}),
        "cmdcall" => {
            let p: Vec<PlaceholderValue> =
                st["a"].as_array().expect("tool: a").iter().map(|x| value(reg, x)).collect();
            match c.command(s(st, "n")) {
                Err(e) => json!({"r":"err","e":variant(&e)}),
                Ok(f) => match f(p) {
                    Ok(x) => json!({"r":"ok","s":x}),
                    Err(CommandError::ParameterMissing(c, n)) => json!({"r":"err","e":"ParameterMissing","c":c,"k":n}),
                    Err(CommandError::InvalidType(c, n)) => json!({"r":"err","e":"InvalidType","c":c,"k":n}),
                    Err(e) => json!({"r":"err","e":variant(&e)}),
                },
            }
        }
        other => panic!("tool: op {other}"),
    }
}

/// A command registry on its own.
pub fn commands(sc: &Value) -> Value {
    let registry = R::new(LanguageTagRegistry::new());
    let c = R::new(CommandRegistry::new());
    let mut obs = Vec::new();
    for st in sc["steps"].as_array().expect("tool: steps") {
        obs.push(guard(|| cmd(&c, &registry, st)));
    }
    json!({"obs":obs})
}
