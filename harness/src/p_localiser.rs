//! The localiser: caching, lookup and fallback, nested data, defaults, script data.
use crate::mock::*;
use crate::p_pattern::Values;
use crate::sym;
use i18n_lexer::IcuDataProvider;
use i18n_localiser::*;
use i18n_utility::*;
use icu_decimal::FixedDecimalFormatter;
use icu_locid::Locale;
use icu_provider::DataLocale;
use std::cell::Cell;
use std::collections::HashMap;
use std::rc::Rc;

type Answer = Result<(Rc<String>, Rc<LanguageTag>), LocaliserError>;
type Plain = Option<(String, String)>;

fn plain(a: Answer) -> Plain {
    match a {
        Ok((s, t)) => Some((s.to_string(), t.as_str().to_string())),
        Err(_) => None,
    }
}
fn see(p: &Plain) {
    match p {
        Some((s, t)) => {
            sym::observe_str(s);
            sym::observe_str(t);
        }
        None => sym::observe(&[1]),
    }
}
fn same(a: &Plain, b: &Plain) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => (a.0 == b.0) & (a.1 == b.1),
        _ => false,
    }
}
struct Env {
    icu: Rc<IcuDataProvider>,
    registry: Rc<LanguageTagRegistry>,
}
fn env() -> Env {
    Env {
        icu: crate::p_lexer::icu(),
        registry: Rc::new(LanguageTagRegistry::new()),
    }
}
impl Env {
    fn tag(&self, s: &str) -> Rc<LanguageTag> {
        self.registry.tag(s).unwrap_or_else(|_| panic!())
    }
    fn mock(&self, recs: &[(&'static str, &'static str, &str, &str)], default: &str) -> Mock {
        Mock {
            recs: recs
                .iter()
                .map(|r| Rec {
                    component: r.0,
                    identifier: r.1,
                    tag: self.tag(r.2),
                    string: r.3.to_string(),
                })
                .collect(),
            default: self.tag(default),
            calls: Rc::new(Cell::new(0)),
        }
    }
    fn localiser(&self, mock: Mock, fallback: bool, caching: bool, lang: &str) -> Localiser {
        world(&self.icu, &self.registry, mock, fallback, caching, lang).localiser
    }
}

// ---- caching ----
const RECS: &[(&str, &str, &str, &str)] = &[
    ("c", "p", "en", "c en {t} {n plural one#o other#m}#{o # x}{m y}"),
    ("c", "p", "en-ZA", "c za {n plural one#o other#m}#{o y}{m # x}{t}"),
    ("c", "l", "en", "literal en"),
    ("c", "l", "fr", "literal fr"),
    ("c", "e", "en", ""),
    ("d", "p", "en", "d en {t}"),
    ("d", "p", "fr", "d fr"),
    ("d", "l", "en-ZA", "d za `{"),
    ("c", "q", "en", "{broken"),
];
#[derive(Clone, Copy)]
struct Call {
    literal: bool,
    component: &'static str,
    identifier: &'static str,
    tag: &'static str,
    fallback: bool,
    caching: bool,
}
const fn call(literal: bool, component: &'static str, identifier: &'static str, tag: &'static str, fallback: bool, caching: bool) -> Call {
    Call { literal, component, identifier, tag, fallback, caching }
}
/// Calls for the longer histories.
const MENU: [Call; 12] = [
    call(false, "c", "p", "en-ZA", false, true),
    call(false, "c", "p", "en", true, true),
    call(false, "c", "p", "fr", true, true),
    call(false, "d", "p", "fr", true, true),
    call(true, "c", "l", "fr", false, true),
    call(false, "c", "l", "en-ZA", true, true),
    call(true, "d", "l", "en-ZA", true, true),
    call(false, "d", "l", "en-ZA", true, true),
    call(false, "c", "p", "fr", false, true),
    call(true, "c", "p", "en", true, true),
    call(false, "c", "e", "fr", true, true),
    call(false, "c", "p", "en", true, false),
];
fn make(l: &Localiser, c: &Call, tag: &Rc<LanguageTag>, values: &Values, caching: bool) -> Answer {
    if c.literal {
        l.literal(c.component, c.identifier, tag, Some(c.fallback), Some(caching))
    } else {
        l.format(c.component, c.identifier, values, tag, Some(c.fallback), Some(caching))
    }
}
/// Any history of calls on a caching localiser gives what each call alone gives without caching.
pub fn h_cache() {
    let (steps, full) = (sym::param(0), sym::param(1));
    let e = env();
    let cached = e.localiser(e.mock(RECS, "en"), false, true, "en");
    let fresh = e.localiser(e.mock(RECS, "en"), false, false, "en");
    let mut done: Vec<Call> = vec![];
    for _ in 0..steps {
        let c = if full == 1 {
            Call {
                literal: sym::flag(),
                component: ["c", "d"][sym::pick(2) as usize],
                identifier: ["p", "l", "e"][sym::pick(3) as usize],
                tag: ["en", "en-ZA", "fr"][sym::pick(3) as usize],
                fallback: sym::flag(),
                caching: true,
            }
        } else {
            MENU[sym::pick(MENU.len() as u64) as usize]
        };
        let tag = e.tag(c.tag);
        let mut v = Values::new();
        if !c.literal {
            v.insert("t".to_string(), PlaceholderValue::String(sym::ascii(1)));
            v.insert("n".to_string(), PlaceholderValue::Unsigned(sym::pick(3) as u128));
        }
        let want = plain(make(&fresh, &c, &tag, &v, false));
        let got = make(&cached, &c, &tag, &v, c.caching);
        if let (true, Err(LocaliserError::CacheEntry(..))) = (c.literal, &got) {
            // documented: the cached string needs values
            check!(done.iter().any(|d| !d.literal
                & d.caching
                & (d.component == c.component)
                & (d.identifier == c.identifier)));
            sym::cover(3);
            sym::observe(&[2]);
        } else {
            let got = plain(got);
            check!(same(&got, &want));
            see(&got);
            sym::cover(if got.is_some() { 1 } else { 2 });
        }
        done.push(c);
    }
}

// ---- lookup ----
const TAGS: [&str; 4] = ["en", "en-ZA", "fr", "fr-CA"];
fn number(lang: &str, n: u64) -> String {
    let l: Locale = lang.parse().unwrap_or_else(|_| panic!());
    let f = FixedDecimalFormatter::try_new(&DataLocale::from(&l), Default::default()).unwrap_or_else(|_| panic!());
    f.format(&fixed_decimal::FixedDecimal::from(n)).to_string()
}
/// Which string is found, in which language it is formatted, and which tag is returned.
pub fn h_lookup() {
    let e = env();
    let present = sym::pick(16) as usize;
    let default = TAGS[sym::pick(4) as usize];
    let requested = ["en", "en-ZA", "fr", "fr-CA", "de"][sym::pick(5) as usize];
    let (fallback, caching, literal) = (sym::flag(), sym::flag(), sym::flag());
    let component = ["c", "d", "broken"][sym::pick(sym::param(0) as u64) as usize];
    let recs: Vec<(&'static str, &'static str, &str, &str)> = TAGS
        .iter()
        .enumerate()
        .filter(|(i, _)| present >> i & 1 == 1)
        .map(|(i, t)| ("c", "s", *t, ["en|{n decimal}|{t}", "en-ZA|{n decimal}|{t}", "fr|{n decimal}|{t}", "fr-CA|{n decimal}|{t}"][i]))
        .collect();
    let l = e.localiser(e.mock(&recs, default), fallback, caching, "en");
    let t = sym::ascii(1);
    let n = 12000 + sym::byte() as u64;
    let mut v = Values::new();
    v.insert("t".to_string(), PlaceholderValue::String(t.clone()));
    v.insert("n".to_string(), PlaceholderValue::Unsigned(n as u128));
    // the record of the longest prefix of the tag
    let find = |tag: &'static str| -> Option<&'static str> {
        let has = |x: &str| TAGS.iter().position(|y| *y == x).map(|i| present >> i & 1 == 1).unwrap_or(false);
        if has(tag) {
            return Some(tag);
        }
        let base = &tag[..2];
        if has(base) {
            return Some(base);
        }
        None
    };
    let mut found = find(requested);
    if found.is_none() && fallback {
        found = find(default);
    }
    if component != "c" {
        found = None;
    }
    let tag = e.tag(requested);
    for _ in 0..2 {
        let got = plain(if literal {
            l.literal(component, "s", &tag, None, None)
        } else {
            l.format(component, "s", &v, &tag, None, None)
        });
        match found {
            None => {
                check!(got.is_none());
                sym::cover(2);
            }
            Some(f) => {
                let text = if literal { format!("{}|{{n decimal}}|{{t}}", f) } else { format!("{}|{}|{}", f, number(f, n), t) };
                check!(same(&got, &Some((text, f.to_string()))));
                sym::cover(1);
            }
        }
        see(&got);
    }
}

// ---- nested data ----
#[derive(Debug)]
struct Failure(LocalisationData);
impl std::fmt::Display for Failure {
    fn fmt(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result {
        Ok(())
    }
}
impl std::error::Error for Failure {}
impl LocalisationTrait for Failure {
    fn localisation_data(&self) -> LocalisationData {
        self.0.clone()
    }
}
impl LocalisationErrorTrait for Failure {}
const NEST: &[(&str, &str, &str, &str)] = &[
    ("c", "two", "en", "<{x}, {y}>"),
    ("c", "two", "fr", "<fr {y} & {x}>"),
    ("c", "one", "en", "({x})"),
    ("c", "lit", "fr", "lit {x} fr"),
    ("c", "lit", "en", "lit `"),
    ("c", "sel", "en", "{x select lit#a other#b}#{a A}{b B{y}}"),
    ("c", "fr", "fr", "fr {x}"),
];
fn data(identifier: &str, values: Option<Vec<(&str, PlaceholderValue)>>) -> LocalisationData {
    LocalisationData {
        component: "c".to_string(),
        identifier: identifier.to_string(),
        values: values.map(|v| v.into_iter().map(|x| (x.0.to_string(), x.1)).collect::<HashMap<String, PlaceholderValue>>()),
    }
}
const LEAF: u64 = 5;
/// Data of the given depth; `t` is the text of its leaves.
fn tree(depth: usize, t: &str) -> LocalisationData {
    if depth == 0 {
        return match sym::pick(LEAF) {
            0 => data("lit", None),
            1 => data("one", Some(vec![("x", PlaceholderValue::String(t.to_string()))])),
            2 => data("absent", None),
            3 => data("fr", Some(vec![("x", PlaceholderValue::String(t.to_string()))])),
            _ => data("one", Some(vec![("y", PlaceholderValue::String(t.to_string()))])),
        };
    }
    let x = PlaceholderValue::LocalisationData(tree(depth - 1, t));
    match sym::pick(3) {
        0 => data("one", Some(vec![("x", x)])),
        1 => data("two", Some(vec![("x", x), ("y", PlaceholderValue::String("Y".to_string()))])),
        _ => data("sel", Some(vec![("y", x), ("x", PlaceholderValue::LocalisationData(data("lit", None)))])),
    }
}
/// Inside out: every inner text is made first, in the language that is asked for.
fn inside_out(l: &Localiser, d: &LocalisationData, tag: &Rc<LanguageTag>, fallback: bool) -> Plain {
    match &d.values {
        None => plain(l.literal(&d.component, &d.identifier, tag, Some(fallback), Some(false))),
        Some(v) => {
            let mut made = Values::new();
            for (k, x) in v.iter() {
                let y = match x {
                    PlaceholderValue::LocalisationData(inner) => PlaceholderValue::String(inside_out(l, inner, tag, fallback)?.0),
                    y => y.clone(),
                };
                made.insert(k.clone(), y);
            }
            plain(l.format(&d.component, &d.identifier, &made, tag, Some(fallback), Some(false)))
        }
    }
}
pub fn h_nested() {
    let e = env();
    let t = sym::ascii(1);
    let d = tree(sym::pick(sym::param(0) as u64 + 1) as usize, &t);
    let tag = e.tag(["en", "fr"][sym::pick(2) as usize]);
    let (fallback, caching) = (sym::flag(), sym::flag());
    let l = e.localiser(e.mock(NEST, "en"), !fallback, !caching, "de");
    let fresh = e.localiser(e.mock(NEST, "en"), false, false, "de");
    let want = inside_out(&fresh, &d, &tag, fallback);
    let got = plain(l.format_localisation_data(&d, &tag, Some(fallback), Some(caching)));
    check!(same(&got, &want));
    see(&got);
    let fail = Failure(d);
    // a new localiser: literal strings of cached patterns are another property
    let l = e.localiser(e.mock(NEST, "en"), !fallback, !caching, "de");
    let got = plain(l.format_error(&fail, &tag, Some(fallback), Some(caching)));
    check!(same(&got, &want));
    sym::cover(if want.is_some() { 1 } else { 2 });
}

// ---- defaults ----
const DEF: &[(&str, &str, &str, &str)] = &[
    ("c", "s", "en", "en {t} {n decimal}"),
    ("c", "s", "ar", "ar {t} {n decimal}"),
    ("c", "o", "en", "only en"),
];
fn alike(a: &Option<ScriptData>, b: &Option<ScriptData>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => a.category == b.category && a.directions == b.directions && a.historic == b.historic,
        _ => false,
    }
}
/// Defaults apply exactly where a call leaves something out, and the last setting counts.
pub fn h_defaults() {
    let e = env();
    let langs = ["en", "ar", "ja"];
    let mut lang = langs[sym::pick(3) as usize];
    let (mut fallback, mut caching) = (sym::flag(), sym::flag());
    let mock = e.mock(DEF, "en");
    let calls = Rc::clone(&mock.calls);
    let l = e.localiser(mock, fallback, caching, lang);
    for _ in 0..sym::param(0) {
        // what to change
        let (a, b, c) = (sym::pick(3) as usize, sym::pick(3), sym::pick(3));
        let opt = |x: u64| if x == 2 { None } else { Some(x == 1) };
        let tag = if a == 2 { None } else { Some(["ar", "ja"][a]) };
        check!(l.defaults(tag.map(|t| e.tag(t)), opt(b), opt(c)).is_ok());
        lang = tag.unwrap_or(lang);
        fallback = opt(b).unwrap_or(fallback);
        caching = opt(c).unwrap_or(caching);
        check!(l.default_language().as_str() == lang);
        check!(alike(&l.script_data(), &l.script_data_for_language_tag(&e.tag(lang))));
    }
    check!(l.default_language().as_str() == lang);
    check!(alike(&l.script_data(), &l.script_data_for_language_tag(&e.tag(lang))));
    let mut v = Values::new();
    v.insert("t".to_string(), PlaceholderValue::String(sym::ascii(1)));
    v.insert("n".to_string(), PlaceholderValue::Unsigned(10 + sym::pick(2) as u128));
    let fresh = e.localiser(e.mock(DEF, "en"), !fallback, false, "de");
    let identifier = ["s", "o"][sym::pick(2) as usize];
    let op = sym::pick(8);
    let d = LocalisationData {
        component: "c".to_string(),
        identifier: identifier.to_string(),
        values: Some(v.clone()),
    };
    // what the call itself says
    let (own_lang, own_fallback, own_caching) = (sym::pick(2) == 1, sym::pick(3), sym::pick(3));
    let opt = |x: u64| if x == 2 { None } else { Some(x == 1) };
    let (mut w_lang, mut w_fallback, mut w_caching) = (lang, fallback, caching);
    if op >= 4 {
        w_lang = if own_lang { "ar" } else { "ja" };
        w_fallback = opt(own_fallback).unwrap_or(fallback);
        w_caching = opt(own_caching).unwrap_or(caching);
    } else {
        sym::assume(!own_lang & (own_fallback == 0) & (own_caching == 0));
    }
    let tag = e.tag(w_lang);
    let want = plain(if op % 4 == 1 {
        fresh.literal("c", identifier, &tag, Some(w_fallback), Some(false))
    } else {
        fresh.format("c", identifier, &v, &tag, Some(w_fallback), Some(false))
    });
    let fail = Failure(d.clone());
    let mut again = 0;
    for i in 0..2 {
        let before = calls.get();
        let (f, c) = (opt(own_fallback), opt(own_caching));
        let got = plain(match op {
            0 => l.format_with_defaults("c", identifier, &v),
            1 => l.literal_with_defaults("c", identifier),
            2 => l.format_localisation_data_with_defaults(&d),
            3 => l.format_error_with_defaults(&fail),
            4 => l.format("c", identifier, &v, &tag, f, c),
            5 => l.literal("c", identifier, &tag, f, c),
            6 => l.format_localisation_data(&d, &tag, f, c),
            _ => l.format_error(&fail, &tag, f, c),
        });
        check!(same(&got, &want));
        see(&got);
        if i == 1 {
            again = calls.get() - before;
        }
    }
    // without caching the provider is asked every time; with caching the same pattern is not asked for again
    if !w_caching {
        check!(again > 0);
        sym::cover(1);
    } else if want.is_some() && op % 4 != 1 && identifier == "s" {
        check!(again == 0);
        sym::cover(2);
    } else {
        sym::cover(3);
    }
}

// ---- script data ----
/// The script of a tag decides, also when only the language tells it.
pub fn h_script() {
    let e = env();
    let l = e.localiser(e.mock(DEF, "en"), false, false, "en");
    let a = ["en", "ar", "ru", "he", "ja", "hi", "zh", "th", "sr", "ur"];
    let s = ["Latn", "Arab", "Cyrl", "Hebr", "Jpan", "Deva", "Hans", "Thai", "Cyrl", "Arab"];
    let i = sym::pick(10) as usize;
    let plain = l.script_data_for_language_tag(&e.tag(a[i]));
    let j = sym::pick(10) as usize;
    let with = l.script_data_for_language_tag(&e.tag(&format!("{}-{}", a[i], s[j])));
    let other = l.script_data_for_language_tag(&e.tag(a[j]));
    check!(alike(&with, &other));
    check!(alike(&plain, &with) | (i != j));
    check!(plain.is_some());
    sym::cover(1);
}
