//! Facts of ICU4X, Unicode and CLDR, asked of the ICU4X crates directly. The specification treats these as
//! uninterpreted functions: it states which question is to be asked, not what the answer is.
#[cfg(feature = "loc")]
use fixed_decimal::{DoublePrecision, FixedDecimal, SignDisplay};
use icu_calendar::{DateTime, Iso};
#[cfg(feature = "loc")]
use icu_datetime::{options::length, DateFormatter, DateTimeFormatter, TimeFormatter};
#[cfg(feature = "loc")]
use icu_decimal::{
    options::{FixedDecimalFormatterOptions, GroupingStrategy},
    FixedDecimalFormatter,
};
use icu_locid::{LanguageIdentifier, Locale};
use icu_locid_transform::{Direction, LocaleDirectionality, LocaleExpander};
#[cfg(feature = "loc")]
use icu_plurals::{PluralCategory, PluralRules};
#[cfg(feature = "loc")]
use icu_provider::DataLocale;
use serde_json::{Map, Value};

pub fn class(c: char) -> &'static str {
    if icu_properties::sets::pattern_white_space().contains(c) {
        "W"
    } else if icu_properties::sets::pattern_syntax().contains(c) {
        "S"
    } else {
        "I"
    }
}

pub fn graphemes(text: &str) -> usize {
    icu_segmenter::GraphemeClusterSegmenter::new().segment_str(text).count() - 1
}

/// For each character of a localisation string, the position in graphemes of the token that starts there.
pub fn places(text: &str) -> String {
    let kind = |c: char| if class(c) == "S" && "{}`#".contains(c) { "G" } else { class(c) };
    let (mut token, mut before, mut out) = (String::new(), 0, Vec::new());
    for c in text.chars() {
        if token.chars().last().is_some_and(|x| kind(x) != kind(c) || kind(c) == "G") {
            before += graphemes(&token);
            token.clear();
        }
        token.push(c);
        out.push(before.to_string());
    }
    out.join(",")
}

/// "Y,M,D,h,m,s,n"
pub fn date_time(text: &str) -> DateTime<Iso> {
    let f: Vec<i64> = text.split(',').map(|x| x.parse().unwrap()).collect();
    let mut d = DateTime::try_new_iso_datetime(
        f[0] as i32, f[1] as u8, f[2] as u8, f[3] as u8, f[4] as u8, f[5] as u8,
    )
    .expect("tool: date");
    d.time.nanosecond = (f[6] as u32).try_into().expect("tool: nanosecond");
    d
}

#[cfg(feature = "loc")]
fn locale(lang: &str, calendar: &str) -> DataLocale {
    let mut l = lang.parse::<Locale>().expect("tool: locale");
    if !calendar.is_empty() {
        // The calendar option replaces a calendar of the language tag.
        l.extensions.unicode.keywords.set(
            icu_locid::extensions_unicode_key!("ca"),
            calendar.parse().expect("tool: calendar"),
        );
    }
    DataLocale::from(l)
}

#[cfg(feature = "loc")]
fn number(kind: &str, text: &str) -> Option<FixedDecimal> {
    Some(match kind {
        "dec" => text.parse().unwrap(),
        "uns" => FixedDecimal::from(text.parse::<u128>().unwrap()),
        "int" => FixedDecimal::from(text.parse::<i128>().unwrap()),
        "flt" => FixedDecimal::try_from_f64(text.parse().unwrap(), DoublePrecision::Floating).ok()?,
        _ => panic!("tool: number kind {kind}"),
    })
}

#[cfg(feature = "loc")]
fn decimal(lang: &str, kind: &str, text: &str, sign: &str, group: &str) -> String {
    let Some(mut n) = number(kind, text) else {
        return "!".into();
    };
    let mut o: FixedDecimalFormatterOptions = Default::default();
    match group {
        "" => {}
        "auto" => o.grouping_strategy = GroupingStrategy::Auto,
        "never" => o.grouping_strategy = GroupingStrategy::Never,
        "always" => o.grouping_strategy = GroupingStrategy::Always,
        "min2" => o.grouping_strategy = GroupingStrategy::Min2,
        _ => panic!("tool: group {group}"),
    }
    match sign {
        "" => {}
        "auto" => n.apply_sign_display(SignDisplay::Auto),
        "never" => n.apply_sign_display(SignDisplay::Never),
        "always" => n.apply_sign_display(SignDisplay::Always),
        "except_zero" => n.apply_sign_display(SignDisplay::ExceptZero),
        "negative" => n.apply_sign_display(SignDisplay::Negative),
        _ => panic!("tool: sign {sign}"),
    }
    match FixedDecimalFormatter::try_new(&locale(lang, ""), o) {
        Ok(f) => f.format_to_string(&n),
        Err(_) => "!".into(),
    }
}

#[cfg(feature = "loc")]
fn category(c: PluralCategory) -> &'static str {
    match c {
        PluralCategory::Zero => "zero",
        PluralCategory::One => "one",
        PluralCategory::Two => "two",
        PluralCategory::Few => "few",
        PluralCategory::Many => "many",
        PluralCategory::Other => "other",
    }
}

#[cfg(feature = "loc")]
fn date_length(x: &str) -> length::Date {
    match x {
        "full" => length::Date::Full,
        "long" => length::Date::Long,
        "" | "medium" => length::Date::Medium,
        "short" => length::Date::Short,
        _ => panic!("tool: length {x}"),
    }
}

#[cfg(feature = "loc")]
fn time_length(x: &str) -> length::Time {
    match x {
        "full" => length::Time::Full,
        "long" => length::Time::Long,
        "" | "medium" => length::Time::Medium,
        "short" => length::Time::Short,
        _ => panic!("tool: length {x}"),
    }
}

#[cfg(feature = "loc")]
fn date_text(lang: &str, kind: &str, text: &str, d: &str, t: &str, cal: &str) -> String {
    let Ok(value) = std::panic::catch_unwind(|| date_time(text)) else {
        return "!".into();
    };
    let l = locale(lang, cal);
    let r = match kind {
        "dt" => DateTimeFormatter::try_new(
            &l,
            length::Bag::from_date_time_style(date_length(d), time_length(t)).into(),
        )
        .ok()
        .and_then(|f| f.format_to_string(&value.to_any()).ok()),
        "date" => DateFormatter::try_new_with_length(&l, date_length(d))
            .ok()
            .and_then(|f| f.format_to_string(&value.date.to_any()).ok()),
        "time" => TimeFormatter::try_new_with_length(&l, time_length(t))
            .ok()
            .map(|f| f.format_to_string(&value.time)),
        _ => panic!("tool: date kind {kind}"),
    };
    r.unwrap_or("!".into())
}

/// Script of the language tag: explicit, or likely; empty if unknown.
pub fn script(tag: &str) -> String {
    let mut id = tag.parse::<Locale>().expect("a tag was refused").id;
    if id.script.is_none() {
        LocaleExpander::new_extended().maximize(&mut id);
    }
    id.script.map(|x| x.to_string()).unwrap_or_default()
}

fn direction(tag: &str) -> &'static str {
    let id = tag.parse::<Locale>().expect("a tag was refused").id;
    match LocaleDirectionality::new().get(&id) {
        Some(Direction::LeftToRight) => "ltr",
        Some(Direction::RightToLeft) => "rtl",
        _ => "",
    }
}

pub fn canonical(tag: &str) -> String {
    #[cfg(not(feature = "ext"))]
    return LanguageIdentifier::canonicalize(tag).map(|x| x.to_string()).unwrap_or("!".into());
    #[cfg(feature = "ext")]
    Locale::canonicalize(tag).map(|x| x.to_string()).unwrap_or("!".into())
}

fn answer(q: &[&str]) -> String {
    match q[0] {
        #[cfg(feature = "loc")]
        "foreign" => crate::ship::foreign(q[1], q[2]),
        #[cfg(feature = "loc")]
        "dec" => decimal(q[1], q[2], q[3], q[4], q[5]),
        #[cfg(feature = "loc")]
        "card" | "ord" => {
            let l = locale(q[1], "");
            let rules = if q[0] == "card" {
                PluralRules::try_new_cardinal(&l)
            } else {
                PluralRules::try_new_ordinal(&l)
            };
            match (rules, number(q[2], q[3])) {
                (Ok(r), Some(n)) => category(r.category_for(&n)).into(),
                _ => "!".into(),
            }
        }
        #[cfg(feature = "loc")]
        "dt" => date_text(q[1], q[2], q[3], q[4], q[5], q[6]),
        "an" => if q[1].starts_with(['a', 'e', 'i', 'o', 'u']) { "an" } else { "a" }.into(),
        "script" => script(q[1]),
        "dir" => direction(q[1]).into(),
        "canon" => canonical(q[1]),
        "cls" => q[1].chars().map(class).collect(),
        "places" => places(q[1]),
        _ => panic!("tool: oracle {}", q[0]),
    }
}

pub fn answers(q: &Value) -> Value {
    let mut o = Map::new();
    for item in q.as_array().expect("tool: orq") {
        let parts: Vec<&str> = item.as_array().unwrap().iter().map(|x| x.as_str().unwrap()).collect();
        o.insert(parts.join("|"), Value::String(answer(&parts)));
    }
    // TLC needs at least one field to see a record.
    o.insert("_".into(), Value::String("_".into()));
    let _ = LanguageIdentifier::UND;
    Value::Object(o)
}
