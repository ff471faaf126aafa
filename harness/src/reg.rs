//! Language tag registry scenarios. Handles are reported by a number that is the same for the same allocation.
use crate::{guard, s, variant, R};
use i18n_utility::{LanguageTag, LanguageTagRegistry};
use serde_json::{json, Value};

pub fn run(sc: &Value) -> Value {
    let registry = LanguageTagRegistry::new();
    let mut seen: Vec<R<LanguageTag>> = Vec::new();
    let mut icu_seen: Vec<usize> = Vec::new();
    let mut keep = Vec::new();
    let mut obs = Vec::new();
    for st in sc["steps"].as_array().expect("tool: steps") {
        obs.push(guard(|| {
            let mut id = |t: &R<LanguageTag>| match seen.iter().position(|x| R::ptr_eq(x, t)) {
                Some(n) => n,
                None => {
                    seen.push(R::clone(t));
                    seen.len() - 1
                }
            };
            let mut list = |l: Vec<R<LanguageTag>>| {
                let mut x: Vec<(String, usize)> =
                    l.iter().map(|t| (t.as_str().to_string(), id(t))).collect();
                x.sort();
                json!({"r":"ok","l":x.iter().map(|y| json!([y.0, y.1])).collect::<Vec<_>>()})
            };
            match s(st, "op") {
                "tag" => match registry.tag(s(st, "t")) {
                    Ok(t) => json!({"r":"ok","t":t.as_str(),"p":id(&t),"icu":t.icu_language().to_string()}),
                    Err(e) => json!({"r":"err","e":variant(&e)}),
                },
                "icu" => match registry.tag(s(st, "t")) {
                    Ok(t) => {
                        let l = registry.icu_language(&t);
                        let address = R::as_ptr(&l) as usize;
                        keep.push(R::clone(&l));
                        let n = match icu_seen.iter().position(|x| *x == address) {
                            Some(n) => n,
                            None => {
                                icu_seen.push(address);
                                icu_seen.len() - 1
                            }
                        };
                        json!({"r":"ok","t":t.as_str(),"p":id(&t),"icu":l.to_string(),"q":n})
                    }
                    Err(e) => json!({"r":"err","e":variant(&e)}),
                },
                // a tag of another registry
                "icux" => match LanguageTagRegistry::new().tag(s(st, "t")) {
                    Ok(t) => {
                        let l = registry.icu_language(&t);
                        let address = R::as_ptr(&l) as usize;
                        keep.push(R::clone(&l));
                        let n = match icu_seen.iter().position(|x| *x == address) {
                            Some(n) => n,
                            None => {
                                icu_seen.push(address);
                                icu_seen.len() - 1
                            }
                        };
                        json!({"r":"ok","t":t.as_str(),"icu":l.to_string(),"q":n})
                    }
                    Err(e) => json!({"r":"err","e":variant(&e)}),
                },
                "list" => list(registry.list()),
                "depr" => list(registry.list_deprecated()),
                "all" => list(registry.list_all()),
                other => panic!("tool: op {other}"),
            }
        }));
    }
    json!({"obs":obs})
}
