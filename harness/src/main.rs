//! Conformance driver: executes scenarios on the public API of the i18n crates, and records what was
//! observed. It judges nothing: the observations are validated against the TLA+ specification by TLC.
//!
//! usage: harness SCENARIOS.ndjson OUT.ndjson START SCRATCH_DIR
mod conc;
#[cfg(feature = "loc")]
mod loc;
mod oracle;
mod prov;
mod reg;
#[cfg(feature = "loc")]
mod ship;
mod vfs;

use i18n_lexer::{DataProvider, IcuDataProvider, LexerIterator, TokenType};
use i18n_utility::{LanguageTagRegistry, LocalisationData, PlaceholderValue, TaggedString};
use serde_json::{json, Map, Value};
use std::collections::HashMap;
use std::io::{BufRead, BufReader, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[cfg(not(feature = "sync"))]
pub use std::rc::Rc as R;
#[cfg(feature = "sync")]
pub use std::sync::Arc as R;

pub struct Ctx {
    pub icu: R<IcuDataProvider>,
    pub scratch: std::path::PathBuf,
}

pub fn s<'a>(v: &'a Value, k: &str) -> &'a str {
    v[k].as_str().unwrap_or_else(|| panic!("tool: missing {k} in {v}"))
}

pub fn ob(v: &Value, k: &str) -> Option<bool> {
    v[k].as_bool()
}

/// Runs a step; a panic of the code under test is data.
pub fn guard<F: FnOnce() -> Value>(f: F) -> Value {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => v,
        Err(e) => {
            let m = if let Some(m) = e.downcast_ref::<String>() {
                m.clone()
            } else if let Some(m) = e.downcast_ref::<&str>() {
                m.to_string()
            } else {
                "?".into()
            };
            if m.starts_with("tool:") {
                eprintln!("{m}");
                std::process::exit(3);
            }
            json!({"r": "panic", "m": m})
        }
    }
}

/// {"k": kind, "v": text, ...} to a placeholder value.
pub fn value(reg: &R<LanguageTagRegistry>, v: &Value) -> PlaceholderValue {
    match s(v, "k") {
        "str" => PlaceholderValue::String(s(v, "v").to_string()),
        "int" => PlaceholderValue::Integer(s(v, "v").parse().unwrap()),
        "uns" => PlaceholderValue::Unsigned(s(v, "v").parse().unwrap()),
        "flt" => PlaceholderValue::Float(s(v, "v").parse().unwrap()),
        "dec" => PlaceholderValue::FixedDecimal(s(v, "v").parse().unwrap()),
        "tag" => PlaceholderValue::TaggedString(TaggedString::new(
            s(v, "v"),
            &reg.tag(s(v, "t")).unwrap(),
        )),
        "loc" => PlaceholderValue::Localised(
            R::new(s(v, "v").to_string()),
            reg.tag(s(v, "t")).unwrap(),
        ),
        "ld" => PlaceholderValue::LocalisationData(data(reg, v)),
        "dt" => PlaceholderValue::DateTime(oracle::date_time(s(v, "v"))),
        "date" => PlaceholderValue::Date(oracle::date_time(s(v, "v")).date),
        "time" => PlaceholderValue::Time(oracle::date_time(s(v, "v")).time),
        other => panic!("tool: value kind {other}"),
    }
}

pub fn values(reg: &R<LanguageTagRegistry>, v: &Value) -> HashMap<String, PlaceholderValue> {
    v.as_object()
        .map(|o| o.iter().map(|(k, x)| (k.clone(), value(reg, x))).collect())
        .unwrap_or_default()
}

pub fn data(reg: &R<LanguageTagRegistry>, v: &Value) -> LocalisationData {
    LocalisationData {
        component: s(v, "c").into(),
        identifier: s(v, "i").into(),
        values: if v["vals"].is_null() {
            None
        } else {
            Some(values(reg, &v["vals"]))
        },
    }
}

/// Placeholder value back to the notation of the scenarios.
pub fn unvalue(v: &PlaceholderValue) -> Value {
    match v {
        PlaceholderValue::String(x) => json!({"k":"str","v":x}),
        PlaceholderValue::Integer(x) => json!({"k":"int","v":x.to_string()}),
        PlaceholderValue::Unsigned(x) => json!({"k":"uns","v":x.to_string()}),
        PlaceholderValue::Float(x) => json!({"k":"flt","v":x.to_string()}),
        PlaceholderValue::TaggedString(x) => json!({"k":"tag","v":x.as_str(),"t":x.tag().as_str()}),
        PlaceholderValue::Localised(x, t) => json!({"k":"loc","v":x.as_str(),"t":t.as_str()}),
        PlaceholderValue::FixedDecimal(x) => json!({"k":"dec","v":x.to_string()}),
        PlaceholderValue::LocalisationData(d) => undata(d),
        PlaceholderValue::DateTime(_) => json!({"k":"dt","v":"?"}),
        PlaceholderValue::Date(_) => json!({"k":"date","v":"?"}),
        PlaceholderValue::Time(_) => json!({"k":"time","v":"?"}),
    }
}

pub fn undata(d: &LocalisationData) -> Value {
    let mut o = Map::new();
    o.insert("k".into(), json!("ld"));
    o.insert("c".into(), json!(d.component));
    o.insert("i".into(), json!(d.identifier));
    o.insert(
        "vals".into(),
        match &d.values {
            None => Value::Null,
            Some(x) => Value::Object(x.iter().map(|(k, v)| (k.clone(), unvalue(v))).collect()),
        },
    );
    Value::Object(o)
}

/// Name of the variant of an error, taken from its Debug form.
pub fn variant<E: std::fmt::Debug>(e: &E) -> String {
    let d = format!("{e:?}");
    d.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect()
}

fn lex(ctx: &Ctx, sc: &Value) -> Value {
    let text = s(sc, "s");
    let cls: Vec<Value> = text
        .chars()
        .map(|c| json!([c.to_string(), oracle::class(c), c.len_utf8()]))
        .collect();
    let mut out = guard(|| {
        let grammar = s(sc, "g");
        match LexerIterator::try_new(text, grammar, &ctx.icu) {
            Err(e) => json!({"r":"err","e":variant(&e)}),
            Ok(it) => {
                let tokens: Vec<Value> = it
                    .map(|t| {
                        let k = match t.token_type {
                            TokenType::WhiteSpace => "W",
                            TokenType::Identifier => "I",
                            TokenType::Grammar => "G",
                            TokenType::Syntax => "S",
                        };
                        json!({"s":t.string,"k":k,"sb":t.start_byte,"sc":t.start_character,"sg":t.start_grapheme,
                            "lb":t.length_bytes,"lc":t.length_characters,"lg":t.length_graphemes,"eb":t.end_byte,
                            "gc":oracle::graphemes(&t.string)})
                    })
                    .collect();
                json!({"r":"ok","tokens":tokens})
            }
        }
    });
    out["cls"] = Value::Array(cls);
    out
}

/// Takes every record and writes its text, to nowhere.
#[cfg(feature = "log")]
struct Logger;
#[cfg(feature = "log")]
impl log::Log for Logger {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, record: &log::Record) {
        std::hint::black_box(record.args().to_string());
    }
    fn flush(&self) {}
}

fn main() {
    #[cfg(feature = "log")]
    {
        log::set_logger(&Logger).expect("tool: logger");
        log::set_max_level(log::LevelFilter::Trace);
    }
    let a: Vec<String> = std::env::args().collect();
    let input = BufReader::new(std::fs::File::open(&a[1]).expect("tool: scenarios"));
    let mut out = std::fs::OpenOptions::new()
        .create(true)
        .append(true)
        .open(&a[2])
        .expect("tool: out");
    let start: usize = a[3].parse().unwrap();
    // A panic that leaves the driver: its place tells whose it is.
    std::panic::set_hook(Box::new(|i| {
        if let Some(l) = i.location() {
            eprintln!("panic at {}:{}", l.file(), l.line());
        }
    }));
    let ctx = Ctx {
        icu: R::new(IcuDataProvider::try_new(DataProvider::Internal).expect("tool: icu")),
        scratch: std::path::PathBuf::from(&a[4]),
    };
    for (n, line) in input.lines().enumerate() {
        if n < start {
            continue;
        }
        let sc: Value = serde_json::from_str(&line.unwrap()).unwrap();
        let mut o = match s(&sc, "k") {
            "lex" => lex(&ctx, &sc),
            #[cfg(feature = "loc")]
            "loc" => loc::run(&ctx, &sc),
            "prov" => prov::run(&ctx, &sc),
            "reg" => reg::run(&sc),
            "creg" => conc::registry(&sc),
            "cprov" => prov::concurrent(&ctx, &sc),
            #[cfg(feature = "loc")]
            "cmd" => loc::commands(&sc),
            other => panic!("tool: kind {other}"),
        };
        o["n"] = json!(n);
        if let Some(q) = sc.get("orq") {
            o["orc"] = oracle::answers(q);
        }
        let mut text = serde_json::to_string(&o).unwrap();
        text.push('\n');
        out.write_all(text.as_bytes()).unwrap();
    }
}
