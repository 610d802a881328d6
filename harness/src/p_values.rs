//! Values of every type in every kind of pattern, ISO date strings, commands.
use crate::mock::*;
use crate::p_lexer::rep;
use crate::p_pattern::*;
use crate::spec::{self, Bad};
use crate::sym;
use fixed_decimal::FixedDecimal;
use i18n_localiser::{CommandError, CommandRegistry};
use i18n_utility::*;
use icu_calendar::{
    types::{IsoHour, IsoMinute, IsoSecond, NanoSecond, Time},
    Date, DateTime, Iso,
};
use icu_datetime::{
    options::length::{Bag, Date as DateLength, Time as TimeLength},
    DateFormatter, DateTimeFormatter, TimeFormatter,
};
use icu_locid::Locale;
use icu_provider::DataLocale;
use std::rc::Rc;

fn date(y: i32, m: u8, d: u8) -> Option<Date<Iso>> {
    if m == 0 || d == 0 {
        return None;
    }
    Date::try_new_iso_date(y, m, d).ok()
}
fn time(h: u8, m: u8, s: u8, n: u32) -> Option<Time> {
    Some(Time::new(
        IsoHour::try_from(h as usize).ok()?,
        IsoMinute::try_from(m as usize).ok()?,
        IsoSecond::try_from(s as usize).ok()?,
        NanoSecond::try_from(n as usize).ok()?,
    ))
}
fn tag(s: &str) -> Rc<LanguageTag> {
    LanguageTagRegistry::new().tag(s).unwrap_or_else(|_| panic!())
}
const KINDS: u64 = 12;
/// A value of each type; `text` is the text of the ones that have text.
fn value(kind: u64, text: &str) -> PlaceholderValue {
    match kind {
        0 => PlaceholderValue::String(text.to_string()),
        1 => PlaceholderValue::TaggedString(TaggedString::new(text, &tag("fr"))),
        2 => PlaceholderValue::Localised(Rc::new(text.to_string()), tag("fr")),
        3 => PlaceholderValue::Unsigned(3),
        4 => PlaceholderValue::Integer(3),
        5 => PlaceholderValue::Float(3.0),
        6 => PlaceholderValue::FixedDecimal(FixedDecimal::from(3)),
        7 => PlaceholderValue::DateTime(DateTime::new(date(2024, 2, 29).unwrap(), time(1, 2, 3, 0).unwrap())),
        8 => PlaceholderValue::Date(date(2024, 2, 29).unwrap()),
        9 => PlaceholderValue::Time(time(1, 2, 3, 0).unwrap()),
        10 => PlaceholderValue::Float(f64::NAN),
        _ => PlaceholderValue::Float(f64::INFINITY),
    }
}
/// Plain placeholders: the text is inserted unchanged whatever it contains, and only text is accepted.
pub fn h_place_value() {
    let n = sym::param(0);
    let mut t = String::new();
    for _ in 0..sym::pick(n as u64 + 1) {
        t.push(rep());
    }
    let kind = sym::pick(KINDS);
    let mut v = Values::new();
    v.insert("a".to_string(), value(kind, &t));
    if sym::flag() {
        v.insert("b".to_string(), value(0, "{a}"));
    }
    let missing = sym::flag();
    let got = run(if missing { "x{a}{zz}" } else { "x{a}y" }, "en", &v);
    if missing || kind > 2 {
        check!(got.is_none());
        sym::cover(2);
    } else {
        check!(got == Some(format!("x{}y", t)));
        sym::cover(1);
    }
}
/// Which types each kind of pattern accepts.
pub fn h_types() {
    const P: [&str; 5] = [
        "{a decimal}",
        "{a date_time}",
        "{a plural one#n other#m}#{n x}{m #y}",
        "{a ordinal few#n other#m}#{n #x}{m y}",
        "{a select three#n other#m}#{n x}{m y}",
    ];
    let (p, k) = (sym::pick(5), sym::pick(KINDS));
    let text = ["three", "2024-02-29"][sym::pick(2) as usize];
    let mut v = Values::new();
    if sym::flag() {
        v.insert("a".to_string(), value(k, text));
    } else {
        v.insert("b".to_string(), value(k, text));
        let got = run(P[p as usize], "en", &v);
        check!(got.is_none());
        sym::cover(3);
        return;
    }
    let got = run(P[p as usize], "en", &v);
    let iso = text.as_bytes()[0] == b'2';
    let expect = match (p, k) {
        (0, 3..=6) => Some("3"),
        (1, 0) if iso => Some("Feb 29, 2024"),
        (1, 7) => Some("Feb 29, 2024, 1:02:03\u{202f}AM"),
        (1, 8) => Some("Feb 29, 2024"),
        (1, 9) => Some("1:02:03\u{202f}AM"),
        (2, 3..=6) => Some("3y"),
        (3, 3) => Some("3x"),
        (4, 0..=2) => Some(if iso { "y" } else { "x" }),
        _ => None,
    };
    check!(got.as_deref() == expect);
    sym::cover(if expect.is_some() { 1 } else { 2 });
}
/// select: any value of up to 2 characters against two-character selectors.
pub fn h_select() {
    const P: [&str; 3] = [
        "<{a select ab#n cd#m other#o}>#{n N}{m M}{o O}",
        "{a select other#o b_#n a#n}#{n {b}}{o O}",
        "{a select ??#n xy#m other#o}#{n N}{m M}{o O}",
    ];
    let n = sym::pick(4) as usize;
    let t = sym::ascii(n);
    let kind = sym::pick(3);
    let s = fill(P[sym::pick(3) as usize]);
    let mut v = Values::new();
    v.insert("a".to_string(), value(kind, &t));
    v.insert("b".to_string(), value(0, "B"));
    let t2 = [("a", t.as_str()), ("b", "B")];
    compare(&s, &Texts(&t2), &v, PLACE);
}

// ---- date and time ----
struct Dates<'a> {
    lang: &'static str,
    text: &'a str,
}
enum When {
    Date(Date<Iso>),
    Time(Time),
    Both(Date<Iso>, Time),
}
fn locale(lang: &str) -> DataLocale {
    let l: Locale = lang.parse().unwrap_or_else(|_| panic!());
    DataLocale::from(&l)
}
fn show(lang: &str, w: &When, date: &str, time: &str) -> Option<String> {
    let d = match date {
        "full" => DateLength::Full,
        "long" => DateLength::Long,
        "short" => DateLength::Short,
        _ => DateLength::Medium,
    };
    let t = match time {
        "full" => TimeLength::Full,
        "long" => TimeLength::Long,
        "short" => TimeLength::Short,
        _ => TimeLength::Medium,
    };
    let l = locale(lang);
    match w {
        When::Date(x) => DateFormatter::try_new_with_length(&l, d).ok()?.format_to_string(&x.to_any()).ok(),
        When::Time(x) => Some(TimeFormatter::try_new_with_length(&l, t).ok()?.format_to_string(x)),
        When::Both(x, y) => DateTimeFormatter::try_new(&l, Bag::from_date_time_style(d, t).into())
            .ok()?
            .format_to_string(&DateTime::new(*x, *y).to_any())
            .ok(),
    }
}
/// The number that the digits stand for, forked into its values.
fn digits(s: &[u8]) -> Result<u32, Bad> {
    let mut n = 0;
    for c in s {
        if sym::fork(c.is_ascii_digit() as u64) == 0 {
            // a sign instead of the first digit: not documented
            return Err(if *c == b'+' || *c == b'-' { Bad::Unspecified } else { Bad::Malformed });
        }
        n = n * 10 + sym::fork((c - b'0') as u64) as u32;
    }
    Ok(n)
}
/// Dates and times in the documented forms, by length and separators.
fn iso_date(s: &[u8]) -> Result<Date<Iso>, Bad> {
    let (sign, r) = match s[0] {
        b'-' => (-1, &s[1..]),
        b'+' => (1, &s[1..]),
        _ => (0, s),
    };
    let (y, m, d) = match (sign, r.len()) {
        (0, 8) | (0, 4) if !r.contains(&b'-') => {
            let y = digits(&r[..4])?;
            if r.len() == 4 {
                (y, 1, 1)
            } else {
                (y, digits(&r[4..6])?, digits(&r[6..8])?)
            }
        }
        _ => {
            let k = r.iter().position(|c| *c == b'-').unwrap_or(r.len());
            if k < 4 || (k > 4 && sign == 0) || (k == 4 && sign > 0) {
                return Err(Bad::Unspecified);
            }
            let y = digits(&r[..k])?;
            match r.len() - k {
                0 => (y, 1, 1),
                3 => (y, digits(&r[k + 1..])?, 1),
                6 if r[k + 3] == b'-' => (y, digits(&r[k + 1..k + 3])?, digits(&r[k + 4..])?),
                _ => return Err(Bad::Unspecified),
            }
        }
    };
    let y = if sign < 0 { -(y as i32) } else { y as i32 };
    date(y, m as u8, d as u8).ok_or(Bad::Malformed)
}
fn iso_time(s: &[u8]) -> Result<Time, Bad> {
    let end = s.iter().position(|c| matches!(c, b'Z' | b'+' | b'-')).unwrap_or(s.len());
    let s = &s[..end];
    let (main, nano) = match s.iter().position(|c| *c == b'.') {
        Some(k) => (&s[..k], digits(&s[k + 1..])?),
        None => (s, 0),
    };
    let colon = main.contains(&b':');
    let (h, m, sec) = match (main.len(), colon) {
        (0, _) => (0, 0, 0),
        (2, false) => (digits(main)?, 0, 0),
        (4, false) => (digits(&main[..2])?, digits(&main[2..])?, 0),
        (6, false) => (digits(&main[..2])?, digits(&main[2..4])?, digits(&main[4..])?),
        (5, true) if main[2] == b':' => (digits(&main[..2])?, digits(&main[3..])?, 0),
        (8, true) if main[2] == b':' && main[5] == b':' => (digits(&main[..2])?, digits(&main[3..5])?, digits(&main[6..])?),
        _ => return Err(Bad::Unspecified),
    };
    time(h as u8, m as u8, sec as u8, nano).ok_or(Bad::Malformed)
}
fn iso(s: &[u8]) -> Result<When, Bad> {
    match s.iter().position(|c| *c == b'T') {
        None => Ok(When::Date(iso_date(s)?)),
        Some(0) => Ok(When::Time(iso_time(&s[1..])?)),
        Some(k) => Ok(When::Both(iso_date(&s[..k])?, iso_time(&s[k + 1..])?)),
    }
}
/// Documented forms; `?` any digit, `*` any ASCII character but T, Z and the separators.
const ISO: [&str; 30] = [
    "2024-0?-2?", "20??-02-29", "?0??-01-31", "2024-1?-?1", "1999??0?", "20240229", "2023-??", "?0?4", "-00??-05-06", "-12??-0?",
    "-???4", "+1?345-06-0?", "-12?45-0?", "+1234?", "-?2345-12-31", "T??:?5", "T?1:2?:5?", "T?1??", "T1?2?5?", "T??", "T",
    "T01:02:03.0?1", "T010203.??9", "2024-02-2?T1?:30", "20240?17T??3015Z", "1970-01-01T0?:0?:0?.001+0?:30", "????-01-31", "T??:??", "T????", "202?????",
];
const ISO2: [&str; 8] =
    ["2*24-02-29", "2024-*2-29", "2024-02-2*", "2024022*", "T*1:30", "T01:3*", "T0130*0", "2024-02-29T0*:00"];
fn iso_fill(t: &str) -> Vec<u8> {
    let mut v = vec![];
    for c in t.bytes() {
        v.push(match c {
            b'?' => {
                let b = sym::byte();
                sym::assume((b >= b'0') & (b <= b'9'));
                b
            }
            b'*' => {
                let b = sym::byte();
                sym::assume((b < 128) & (b != b'T') & (b != b'Z') & (b != b'-') & (b != b'+') & (b != b':') & (b != b'.'));
                b
            }
            c => c,
        });
    }
    v
}
fn date_check(lang: &'static str, pattern: &str, bytes: &[u8], d: &str, t: &str) {
    let text = unsafe { std::str::from_utf8_unchecked(bytes) };
    let mut v = Values::new();
    v.insert("a".to_string(), value(0, text));
    let want = match iso(bytes) {
        Err(Bad::Unspecified) => {
            sym::cover(3);
            let _ = run(pattern, lang, &v);
            return;
        }
        Err(_) => None,
        Ok(w) => show(lang, &w, d, t),
    };
    let got = run(pattern, lang, &v);
    match want {
        None => {
            check!(got.is_none());
            sym::cover(2);
        }
        Some(w) => {
            check!(got == Some(format!("<{}>", w)));
            sym::cover(1);
        }
    }
}
/// ISO strings with any digits: the date they stand for, in the formatting of ICU.
pub fn h_iso() {
    let (lo, n) = (sym::param(0), sym::param(1));
    let k = lo + sym::pick(n as u64) as usize;
    sym::cover(10 + k as u32);
    let b = iso_fill(ISO[k]);
    date_check("en", "<{a date_time date#full}>", &b, "full", "medium");
}
/// ISO strings with a wrong character.
pub fn h_iso_bad() {
    let k = sym::pick(ISO2.len() as u64) as usize;
    let b = iso_fill(ISO2[k]);
    date_check("en", "<{a date_time}>", &b, "medium", "medium");
}
/// Every combination of the lengths of date and time, for values of every type.
pub fn h_date_options() {
    const L: [&str; 5] = ["", "full", "long", "medium", "short"];
    let lang = ["en", "pl"][sym::pick(2) as usize];
    let (d, t) = (L[sym::pick(5) as usize], L[sym::pick(5) as usize]);
    let mut s = String::from("<{a date_time");
    let order = sym::flag();
    if order && t.len() > 0 {
        s.push_str(&format!(" time#{}", t));
    }
    if d.len() > 0 {
        s.push_str(&format!(" date#{}", d));
    }
    if !order && t.len() > 0 {
        s.push_str(&format!("  time#{}", t));
    }
    s.push_str("}>");
    let (d, t) = (if d.len() > 0 { d } else { "medium" }, if t.len() > 0 { t } else { "medium" });
    let day = 1 + 9 * sym::pick(4) as u8;
    let h = sym::pick(3) as u8 * 11;
    let (x, y) = (date(2024, 2, day).unwrap(), time(h, 5, 9, 0).unwrap());
    let (val, w) = match sym::pick(3) {
        0 => (PlaceholderValue::Date(x), When::Date(x)),
        1 => (PlaceholderValue::Time(y), When::Time(y)),
        _ => (PlaceholderValue::DateTime(DateTime::new(x, y)), When::Both(x, y)),
    };
    let mut v = Values::new();
    v.insert("a".to_string(), val);
    let got = run(&s, lang, &v);
    match show(lang, &w, d, t) {
        Some(w) => {
            check!(got == Some(format!("<{}>", w)));
            sym::cover(1);
        }
        None => {
            check!(got.is_none());
            sym::cover(2);
        }
    }
}
/// Options that do not exist.
pub fn h_date_bad() {
    const S: [&str; 5] =
        ["{a date_time d?te#full}", "{a date_time time#s?o?t}", "{a date_time date#???? time#full}", "{a date_time ti?e#long}", "{a date_time?date#long}"];
    let s = fill(S[sym::pick(S.len() as u64) as usize]);
    let mut v = Values::new();
    v.insert("a".to_string(), value(8, ""));
    let w = Fixed;
    compare(&s, &w, &v, PLACE | REJECT);
}
struct Fixed;
impl spec::World for Fixed {
    fn text(&self, _: &str) -> Option<String> {
        None
    }
    fn category(&self, _: &str, _: bool) -> Option<(&'static str, String)> {
        None
    }
    fn decimal(&self, _: &str, _: &str, _: &str) -> Option<String> {
        None
    }
    fn date_time(&self, name: &str, date_: &str, time: &str) -> Option<String> {
        if name != "a" {
            return None;
        }
        show("en", &When::Date(date(2024, 2, 29).unwrap()), date_, time)
    }
    fn command(&self, _: &str, _: bool, _: &[String]) -> Option<String> {
        None
    }
}

// ---- commands ----
fn part(p: &PlaceholderValue) -> String {
    match p {
        PlaceholderValue::String(s) => s.clone(),
        PlaceholderValue::Unsigned(n) => format!("u{}", *n as u64),
        _ => "?".to_string(),
    }
}
/// Shows its parameters.
fn echo(p: Vec<PlaceholderValue>) -> Result<String, CommandError> {
    let mut s = String::from("[");
    for x in p.iter() {
        s.push_str(&part(x));
        s.push('|');
    }
    s.push(']');
    Ok(s)
}
fn fails(_: Vec<PlaceholderValue>) -> Result<String, CommandError> {
    Err(CommandError::NotFound("e".to_string()))
}
struct Commands {
    a: String,
}
impl spec::World for Commands {
    fn text(&self, name: &str) -> Option<String> {
        if name == "a" {
            Some(self.a.clone())
        } else {
            None
        }
    }
    fn category(&self, _: &str, _: bool) -> Option<(&'static str, String)> {
        None
    }
    fn decimal(&self, _: &str, _: &str, _: &str) -> Option<String> {
        None
    }
    fn date_time(&self, _: &str, _: &str, _: &str) -> Option<String> {
        None
    }
    fn command(&self, name: &str, delayed: bool, params: &[String]) -> Option<String> {
        let p: Vec<String> = params
            .iter()
            .map(|x| {
                if delayed && sym::fork((x == "a") as u64) == 1 {
                    self.a.clone()
                } else if delayed && sym::fork((x == "n") as u64) == 1 {
                    "u7".to_string()
                } else {
                    x.clone()
                }
            })
            .collect();
        match name {
            "c" | "cc" => {
                let mut s = format!("[{}|", name);
                for x in p {
                    s.push_str(&x);
                    s.push('|');
                }
                s.push(']');
                Some(s)
            }
            "english_a_or_an" => {
                let x = p.first()?;
                let c = x.bytes().next().unwrap_or(0);
                Some(if matches!(c, b'a' | b'e' | b'i' | b'o' | b'u') { "an" } else { "a" }.to_string())
            }
            _ => None,
        }
    }
}
pub fn run_commands(s: &str, values: &Values) -> Option<String> {
    let (w, tag) = one(s.to_string(), "en");
    for (n, f) in [("c", echo as fn(Vec<PlaceholderValue>) -> Result<String, CommandError>), ("cc", echo), ("e", fails)] {
        check!(w.commands.insert(n, f).is_ok());
    }
    check!(w.commands.insert("english_a_or_an", i18n_localiser::english_a_or_an).is_ok());
    match w.localiser.format("c", "s", values, &tag, None, None) {
        Ok((s, _)) => {
            sym::observe_str(&s);
            Some(s.to_string())
        }
        Err(_) => {
            sym::observe(&[1]);
            None
        }
    }
}
/// Patterns with commands.
pub fn h_command() {
    const S: [&str; 18] = [
        "{#c ?? x}",
        "x{#c# a ?}y",
        "{#c `??` y}",
        "{#c#?`?``` n}",
        "x{#? a}y",
        "{#?? a}",
        "{#c?# a}",
        "{#c#?a?b}",
        "{#c #a}",
        "{#c a?}",
        "{a}{#c# a n q}{#cc a n}",
        "{a select ??#n other#m}#{m {#c x}}{n {#cc# a}}",
        "{#c}{#c#}{#cc }",
        "{#e x}?",
        "{#e# x}?",
        "{a select XY#n other#m}#{n N}{m {#e# x}?}",
        "{#c x# ?}",
        "{#english_a_or_an# a} {a}",
    ];
    let s = fill(choose(&S));
    let a = sym::ascii(2);
    let mut v = Values::new();
    v.insert("a".to_string(), value(0, &a));
    v.insert("n".to_string(), PlaceholderValue::Unsigned(7));
    let w = Commands { a };
    let want = spec::format(&s, &w);
    let got = run_commands(&s, &v);
    match want {
        Ok(t) => {
            check!(got == Some(t));
            sym::cover(1);
        }
        Err(Bad::Malformed) => {
            check!(got.is_none());
            sym::cover(2);
        }
        Err(_) => sym::cover(3),
    }
}
/// The registry of commands: names are unique, and every name finds its own function.
pub fn h_command_registry() {
    fn f0(_: Vec<PlaceholderValue>) -> Result<String, CommandError> {
        Ok("0".to_string())
    }
    fn f1(_: Vec<PlaceholderValue>) -> Result<String, CommandError> {
        Ok("1".to_string())
    }
    fn f2(_: Vec<PlaceholderValue>) -> Result<String, CommandError> {
        Ok("2".to_string())
    }
    let f = [f0 as fn(Vec<PlaceholderValue>) -> Result<String, CommandError>, f1, f2];
    let r = CommandRegistry::new();
    let mut names: Vec<(String, usize)> = vec![];
    for (k, func) in f.iter().enumerate() {
        let n = sym::ascii(sym::pick(3) as usize);
        let mut known = false;
        for x in names.iter() {
            known |= x.0 == n;
        }
        let known = sym::fork(known as u64) == 1;
        check!(r.insert(&n, *func).is_ok() == !known);
        if !known {
            names.push((n, k));
            sym::cover(1);
        } else {
            sym::cover(2);
        }
        check!(r.list().len() == names.len());
    }
    for (n, k) in names.iter() {
        match r.command(n) {
            Ok(func) => check!(func(vec![]).ok() == Some(k.to_string())),
            Err(_) => check!(false),
        }
        check!(r.list().contains(n));
    }
    let n = sym::ascii(1);
    let known = names.iter().any(|x| x.0 == n);
    check!(r.command(&n).is_ok() == known);
    sym::observe(&[names.len() as u8]);
}
/// The supplied commands, for any text and any type of parameter.
pub fn h_supplied_commands() {
    let n = sym::pick(sym::param(0) as u64 + 1) as usize;
    let t = sym::ascii(n);
    let kind = sym::pick(KINDS);
    let path = sym::flag();
    let mut p = vec![value(0, "name")];
    if sym::flag() {
        p.push(value(kind, &t));
    } else {
        let r = if path { i18n_localiser::file_path(p) } else { i18n_localiser::english_a_or_an(p) };
        check!(r.is_err());
        sym::cover(3);
        return;
    }
    if sym::flag() {
        p.push(value(0, "z"));
    }
    let r = if path { i18n_localiser::file_path(p) } else { i18n_localiser::english_a_or_an(p) };
    if kind > 0 {
        check!(r.is_err());
        sym::cover(2);
        return;
    }
    let r = r.ok();
    let first = t.bytes().next().unwrap_or(0);
    if path {
        check!(r.as_deref() == Some(t.as_str()));
    } else if !first.is_ascii_uppercase() {
        check!(r.as_deref() == Some(if matches!(first, b'a' | b'e' | b'i' | b'o' | b'u') { "an" } else { "a" }));
    }
    sym::cover(1);
}
/// No input makes formatting panic or run forever: any pattern with holes, values of every type.
pub fn h_total() {
    const S: [&str; 16] = [
        "{a??}{#c#??",
        "{? decimal ???}",
        "{a d??imal sign#??}",
        "{a date_time ?#??",
        "{a plural other#?}#{? #??}",
        "{a plural?one#x?other#y?}#{x ?}{y #?}",
        "{a select a#? other#?}#{n {a?}{m ?}",
        "{a ordinal other#n}?{n #?#}?",
        "{#c ??`?`}",
        "{#e?# ??}",
        "#{??}{?",
        "#{a ?{a plural other#?}?}",
        "{``?`?}",
        "{a date_time calendar#????}",
        "{a date_time date#full time#full?hour#24}",
        "{a plural other#?}#{m #}{n {b select other#m}}",
    ];
    let s = fill(choose(&S));
    let mut v = Values::new();
    let k = sym::pick(KINDS);
    v.insert("a".to_string(), value(k, "2x"));
    v.insert("b".to_string(), value(sym::param(1) as u64, "b"));
    let got = run_commands(&s, &v);
    sym::cover(if got.is_some() { 1 } else { 2 });
}
/// The same for any ASCII pattern of at most N characters.
pub fn h_total_ascii() {
    let s = sym::ascii(sym::pick(sym::param(0) as u64 + 1) as usize);
    let mut v = Values::new();
    v.insert("a".to_string(), value(0, "2x"));
    let got = run_commands(&s, &v);
    sym::cover(if got.is_some() { 1 } else { 2 });
}
/// The same for ISO strings: any ASCII value of at most N characters for a date and time.
pub fn h_total_iso() {
    let t = sym::ascii(sym::pick(sym::param(0) as u64 + 1) as usize);
    let mut v = Values::new();
    v.insert("a".to_string(), value(0, &t));
    let got = run("{a date_time}", "en", &v);
    sym::cover(if got.is_some() { 1 } else { 2 });
}
