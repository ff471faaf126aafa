//! Concurrent scenarios; these need the feature `sync`. This file is also part of the crate in ../../sched.
use serde_json::{json, Value};

#[cfg(not(feature = "sync"))]
pub fn registry(_sc: &Value) -> Value {
    json!({"r":"nosync"})
}

/// Runs the threads of a scenario. Every call is logged with tickets taken from one counter directly before
/// the call and directly after it returned, so the order of tickets is the real-time order of the calls.
#[cfg(feature = "sync")]
pub fn threads<F: Fn(&Value) -> Value + Sync>(sc: &Value, f: F) -> Vec<Value> {
    use std::sync::atomic::{AtomicUsize, Ordering};
    let scripts = sc["threads"].as_array().expect("tool: threads");
    let ticket = AtomicUsize::new(0);
    let waiting = AtomicUsize::new(scripts.len());
    let log = std::sync::Mutex::new(Vec::new());
    std::thread::scope(|scope| {
        for (n, script) in scripts.iter().enumerate() {
            let (ticket, waiting, log, f) = (&ticket, &waiting, &log, &f);
            scope.spawn(move || {
                let mut mine = Vec::new();
                // All start at the same time: nobody sleeps.
                waiting.fetch_sub(1, Ordering::SeqCst);
                while waiting.load(Ordering::SeqCst) > 0 {
                    std::hint::spin_loop();
                }
                for (m, st) in script.as_array().expect("tool: script").iter().enumerate() {
                    let a = ticket.fetch_add(1, Ordering::SeqCst);
                    let o = crate::guard(|| f(st));
                    let b = ticket.fetch_add(1, Ordering::SeqCst);
                    mine.push(json!({"th":n,"st":m,"a":a,"b":b,"o":o}));
                }
                log.lock().unwrap().extend(mine);
            });
        }
    });
    log.into_inner().unwrap()
}

/// Identity of an instance. It is kept alive for ever, so that its address is not used again.
#[cfg(feature = "sync")]
fn instance<T>(x: &crate::R<T>) -> String {
    std::mem::forget(crate::R::clone(x));
    format!("{:x}", crate::R::as_ptr(x) as usize)
}

#[cfg(feature = "sync")]
pub fn registry(sc: &Value) -> Value {
    use crate::{s, variant, R};
    use i18n_utility::{LanguageTag, LanguageTagRegistry};
    let registry = LanguageTagRegistry::new();
    let list = |l: Vec<R<LanguageTag>>| {
        let mut x: Vec<String> = l.iter().map(|t| t.as_str().to_string()).collect();
        x.sort();
        json!({"r":"ok","l":x})
    };
    let call = |st: &Value| match s(st, "op") {
        "tag" => match registry.tag(s(st, "t")) {
            Ok(t) => json!({"r":"ok","t":t.as_str(),"p":instance(&t),"l":[]}),
            Err(e) => json!({"r":"err","e":variant(&e)}),
        },
        "icu" => match registry.tag(s(st, "t")) {
            Ok(t) => {
                let l = registry.icu_language(&t);
                json!({"r":"ok","t":l.to_string(),"p":instance(&l),"l":[]})
            }
            Err(e) => json!({"r":"err","e":variant(&e)}),
        },
        "list" => list(registry.list()),
        "depr" => list(registry.list_deprecated()),
        "all" => list(registry.list_all()),
        other => panic!("tool: op {other}"),
    };
    let log = threads(sc, call);
    // After the threads ended: what is registered, and is it handed out again?
    let end = crate::guard(|| {
        let tags = registry.list();
        let same: Vec<bool> = tags
            .iter()
            .map(|t| registry.tag(t.as_str()).map(|x| R::ptr_eq(&x, t)).unwrap_or(false))
            .collect();
        json!({"r":"ok","list":list(registry.list())["l"],"depr":list(registry.list_deprecated())["l"],
            "all":list(registry.list_all())["l"],"same":same})
    });
    json!({"log":log,"end":end})
}
