//! Sqlite3 provider scenarios. The database files are built in the scratch directory given on the command line.
use crate::{guard, s, variant, Ctx, R};
use i18n_provider::{LanguageData, LocalisationProviderTrait, ProviderError};
use i18n_provider_sqlite3::{LocalisationProviderSqlite3, ProviderSqlite3Error, SchemaError};
use i18n_utility::{LanguageTag, LanguageTagRegistry};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::ffi::OsString;
use std::os::unix::ffi::OsStringExt;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicUsize, Ordering};

const SCHEMA: &str = include_str!("schema.sql");
static SERIAL: AtomicUsize = AtomicUsize::new(0);

#[allow(dead_code)]
pub fn remove(dir: &Option<PathBuf>) {
    if let Some(d) = dir {
        let _ = std::fs::remove_dir_all(d);
    }
}

/// Builds the database files of a scenario.
pub fn build(ctx: &Ctx, sc: &Value) -> PathBuf {
    let mut name = OsString::from(format!("db{}_{}", std::process::id(), SERIAL.fetch_add(1, Ordering::SeqCst)));
    if let Some(b) = sc["place"].as_array() {
        // the directory itself may have a name that is not UTF-8
        name.push(OsString::from_vec(b.iter().map(|x| x.as_u64().unwrap() as u8).collect()));
    }
    if sc["here"] == true {
        // a name that looks like a URI; the repository is then opened by this name, from the directory above
        let mut x = OsString::from("file:");
        x.push(name);
        name = x;
    }
    let dir = ctx.scratch.join(name);
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).expect("tool: scratch");
    for f in sc["files"].as_array().expect("tool: files") {
        let path = match f["bytes"].as_array() {
            None => dir.join(s(f, "name")),
            // a name that is not UTF-8
            Some(b) => dir.join(OsString::from_vec(b.iter().map(|x| x.as_u64().unwrap() as u8).collect())),
        };
        if f["dir"].as_bool() == Some(true) {
            std::fs::create_dir_all(&path).expect("tool: dir");
            continue;
        }
        if let Some(raw) = f["raw"].as_str() {
            std::fs::write(&path, raw).expect("tool: raw");
            continue;
        }
        let mut db = rusqlite::Connection::open(&path).expect("tool: open");
        db.execute_batch("PRAGMA journal_mode=OFF; PRAGMA synchronous=OFF;").expect("tool: pragma");
        db.execute_batch(f["schema"].as_str().unwrap_or(SCHEMA)).expect("tool: schema");
        db.execute_batch("PRAGMA foreign_keys=OFF;").expect("tool: pragma");
        let t = db.transaction().expect("tool: transaction");
        if let Some(v) = f["version"].as_str() {
            t.execute(
                "INSERT INTO metadata(component,key,value) VALUES('c','schema_version',?1)",
                [v],
            )
            .expect("tool: version");
        }
        let mut tags = BTreeSet::new();
        for c in f["comps"].as_array().unwrap_or(&vec![]) {
            tags.insert(c[1].as_str().unwrap().to_string());
            t.execute(
                "INSERT INTO component(identifier,languageTag,added) VALUES(?1,?2,'2024-01-01')",
                [c[0].as_str().unwrap(), c[1].as_str().unwrap()],
            )
            .expect("tool: component");
        }
        for c in f["contribs"].as_array().unwrap_or(&vec![]) {
            tags.insert(c[1].as_str().unwrap().to_string());
            t.execute(
                "INSERT INTO contributor(component,languageTag,contributor) VALUES(?1,?2,?3)",
                [c[0].as_str().unwrap(), c[1].as_str().unwrap(), c[2].as_str().unwrap()],
            )
            .expect("tool: contributor");
        }
        for c in f["rows"].as_array().unwrap_or(&vec![]) {
            tags.insert(c[2].as_str().unwrap().to_string());
            t.execute(
                "INSERT INTO pattern(component,identifier,languageTag,string) VALUES(?1,?2,?3,?4)",
                [
                    c[0].as_str().unwrap(),
                    c[1].as_str().unwrap(),
                    c[2].as_str().unwrap(),
                    c[3].as_str().unwrap(),
                ],
            )
            .expect("tool: pattern");
        }
        if f["schema"].is_null() {
            for tag in tags {
                t.execute("INSERT INTO language(tag,added) VALUES(?1,'2024-01-01')", [tag])
                    .expect("tool: language");
            }
        }
        t.commit().expect("tool: commit");
        for x in f["sql"].as_array().unwrap_or(&vec![]) {
            let done = db.execute_batch(x.as_str().unwrap());
            // values that the schema refuses are left out
            if sc["rot"].as_bool() != Some(true) {
                done.expect("tool: sql");
            }
        }
        drop(db);
        if f["flip"].is_array() {
            let mut bytes = std::fs::read(&path).expect("tool: read");
            let size = bytes.len();
            for x in f["flip"].as_array().unwrap() {
                bytes[(x[0].as_f64().unwrap() * size as f64) as usize] = x[1].as_u64().unwrap() as u8;
            }
            if let Some(x) = f["cut"].as_f64() {
                bytes.truncate((x * size as f64) as usize);
            }
            std::fs::write(&path, bytes).expect("tool: write");
        }
    }
    dir
}

/// An error, and what it names.
pub fn error(e: &ProviderError) -> Value {
    let named = match e {
        ProviderError::ComponentNotFound(c) | ProviderError::DefaultLanguage(c) | ProviderError::InvalidDefaultLanguage(c) => vec![c.clone()],
        _ => vec![],
    };
    json!({"r":"err","e":variant(e),"w":told(variant(e), named)})
}

fn told(kind: String, named: Vec<String>) -> Vec<String> {
    [vec![kind], named].concat()
}

/// What an error of opening a directory names; of paths, only what is known of them.
fn opening(e: &ProviderSqlite3Error, target: &Path) -> Vec<String> {
    let file = |x: &str| Path::new(x).file_name().map_or(String::new(), |y| y.to_string_lossy().to_string());
    let asked = |x: &Path| if x == target { "asked" } else { "other" }.to_string();
    match e {
        ProviderSqlite3Error::NotDirectory(x) | ProviderSqlite3Error::NoSqlite3Files(x) | ProviderSqlite3Error::NotExists(x) => {
            told(variant(e), vec![asked(x)])
        }
        ProviderSqlite3Error::SchemaInvalid(x) => told(
            variant(x),
            match x {
                SchemaError::MissingTable(a) => vec![a.clone()],
                SchemaError::Version(a, b) => vec![file(a), b.clone()],
                SchemaError::MissingVersion(a) => vec![file(a)],
                SchemaError::MissingColumn(a, b) | SchemaError::ColumnMismatch(a, b) => vec![a.clone(), b.clone()],
                SchemaError::ColumnProperty(a, b, c) | SchemaError::ColumnDefault(a, b, c) => vec![a.clone(), b.clone(), c.clone()],
                _ => vec![],
            },
        ),
        _ => told(variant(e), vec![]),
    }
}

fn languages(l: &HashMap<R<LanguageTag>, LanguageData>) -> Value {
    let mut v: Vec<(String, Value)> = l
        .iter()
        .map(|(k, d)| {
            let mut c = d.contributors.clone();
            c.sort();
            // ratio in units of 1/10000, or -1 if there is no such number
            let ratio = if d.ratio.is_finite() { (d.ratio as f64 * 10000.0).round() as i64 } else { -1 };
            (k.as_str().to_string(), json!({"t":k.as_str(),"n":d.count,"q":ratio,"by":c}))
        })
        .collect();
    v.sort_by(|a, b| a.0.cmp(&b.0));
    Value::Array(v.into_iter().map(|x| x.1).collect())
}

pub fn step(p: &LocalisationProviderSqlite3, reg: &R<LanguageTagRegistry>, st: &Value) -> Value {
    let tag = || reg.tag(s(st, "t")).expect("a tag was refused");
    let pair = |x: &(String, R<LanguageTag>)| json!([x.0, x.1.as_str()]);
    match s(st, "op") {
        "string" => match p.string(s(st, "c"), s(st, "i"), &tag()) {
            Ok(x) => json!({"r":"ok","l":x.iter().map(pair).collect::<Vec<_>>()}),
            Err(e) => error(&e),
        },
        "exact" => match p.string_exact_match(s(st, "c"), s(st, "i"), &tag()) {
            Ok(x) => json!({"r":"ok","l":x.iter().map(pair).collect::<Vec<_>>()}),
            Err(e) => error(&e),
        },
        "strings" => match p.strings(s(st, "c"), s(st, "i"), &tag()) {
            Ok(x) => json!({"r":"ok","l":x.iter().map(pair).collect::<Vec<_>>()}),
            Err(e) => error(&e),
        },
        "iddet" => match p.identifier_details(s(st, "c"), s(st, "i")) {
            Ok(d) => {
                let l: Vec<&str> = d.languages.iter().map(|x| x.as_str()).collect();
                json!({"r":"ok","l":l,"def":d.default.as_str()})
            }
            Err(e) => error(&e),
        },
        "compdet" => match p.component_details(s(st, "c")) {
            Ok(d) => json!({"r":"ok","l":languages(&d.languages),"def":d.default.as_str(),"n":d.total_strings}),
            Err(e) => error(&e),
        },
        "repdet" => match p.repository_details() {
            Ok(d) => {
                let mut by = d.contributors.clone();
                by.sort();
                let mut comps = d.components.clone();
                comps.sort();
                json!({"r":"ok","l":languages(&d.languages),"def":d.default.as_ref().map(|x| x.as_str()).unwrap_or(""),
                    "n":d.total_strings,"comps":comps,"by":by})
            }
            Err(e) => error(&e),
        },
        other => panic!("tool: op {other}"),
    }
}

/// Everything that is in a directory.
pub fn contents(dir: &Path) -> BTreeMap<PathBuf, Vec<u8>> {
    let mut out = BTreeMap::new();
    for x in std::fs::read_dir(dir).expect("tool: list") {
        let path = x.expect("tool: entry").path();
        if path.is_dir() {
            out.extend(contents(&path));
            out.insert(path, vec![]);
        } else {
            let bytes = std::fs::read(&path).expect("tool: read");
            out.insert(path, bytes);
        }
    }
    out
}

pub fn run(ctx: &Ctx, sc: &Value) -> Value {
    let registry = R::new(LanguageTagRegistry::new());
    let dir = build(ctx, sc);
    let before = std::env::current_dir().expect("tool: directory");
    let target = match sc["open"].as_str() {
        _ if sc["here"] == true => {
            std::env::set_current_dir(&ctx.scratch).expect("tool: directory");
            PathBuf::from(dir.file_name().unwrap())
        }
        None => dir.clone(),
        Some(x) => dir.join(x),
    };
    let watched = sc["steps"].as_array().is_some_and(|x| x.iter().any(|y| y["op"] == "disk"));
    let mut disk = if watched { contents(&dir) } else { BTreeMap::new() };
    let layer = (sc["layer"].as_bool() == Some(true)).then(|| crate::vfs::Layer::new(false, 1));
    let arm = |x: &Value, opens: bool| {
        if let Some(n) = x["fail"].as_i64() {
            crate::vfs::arm(n, x["rest"].as_bool() == Some(true), opens);
        }
    };
    let mut provider = None;
    // a file that cannot be opened is passed over when the provider is made, on purpose
    arm(sc, false);
    let mut open = guard(|| match LocalisationProviderSqlite3::try_new(&target, &registry, false) {
        Ok(x) => {
            provider = Some(x);
            json!({"r":"ok"})
        }
        Err(e) => {
            let mut o = json!({"r":"err","e":variant(&e),"w":opening(&e, &target)});
            if let ProviderSqlite3Error::SchemaInvalid(x) = &e {
                o["why"] = json!(variant(x));
            }
            o
        }
    });
    if layer.is_some() {
        open["hit"] = json!(crate::vfs::disarm());
    }
    let mut obs = Vec::new();
    if let Some(p) = provider {
        for st in sc["steps"].as_array().expect("tool: steps") {
            match s(st, "op") {
                "gone" => {
                    let path = dir.join(s(st, "n"));
                    let _ = std::fs::remove_file(&path);
                    disk.remove(&path);
                    obs.push(json!({"r":"ok"}));
                }
                "disk" => obs.push(json!({"r":"ok","same":contents(&dir) == disk})),
                _ => {
                    arm(st, true);
                    let mut o = guard(|| step(&p, &registry, st));
                    if layer.is_some() {
                        o["hit"] = json!(crate::vfs::disarm());
                    }
                    obs.push(o);
                }
            }
        }
    }
    let same = !watched || contents(&dir) == disk;
    std::env::set_current_dir(before).expect("tool: directory");
    let _ = std::fs::remove_dir_all(&dir);
    json!({"open":open,"obs":obs,"same":same})
}

/// Calls of several threads on one provider.
#[cfg(not(feature = "sync"))]
pub fn concurrent(_ctx: &Ctx, _sc: &Value) -> Value {
    json!({"r":"nosync"})
}
#[cfg(feature = "sync")]
pub fn concurrent(ctx: &Ctx, sc: &Value) -> Value {
    use crate::R;
    use i18n_provider_sqlite3::LocalisationProviderSqlite3;
    use i18n_utility::LanguageTagRegistry;
    let registry = R::new(LanguageTagRegistry::new());
    let dir = build(ctx, sc);
    let _layer = sc["slow"].as_u64().map(|seed| crate::vfs::Layer::new(true, seed));
    let log = match LocalisationProviderSqlite3::try_new(dir.clone(), &registry, false) {
        Ok(p) => crate::conc::threads(sc, |st| step(&p, &registry, st)),
        Err(_) => vec![],
    };
    let _ = std::fs::remove_dir_all(&dir);
    json!({"log":log})
}
