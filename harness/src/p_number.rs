//! Numbers in patterns: plural and ordinal branches, `#`, decimal options.
use crate::p_pattern::*;
use crate::spec;
use crate::sym;
use fixed_decimal::{DoublePrecision, FixedDecimal};
use i18n_utility::*;
use icu_decimal::{options, FixedDecimalFormatter};
use icu_locid::Locale;
use icu_plurals::{PluralCategory, PluralRules};
use icu_provider::DataLocale;

#[derive(Clone)]
pub enum Num {
    U(u128),
    I(i128),
    F(f64),
    D(FixedDecimal),
}
impl Num {
    pub fn value(&self) -> PlaceholderValue {
        match self {
            Num::U(x) => PlaceholderValue::Unsigned(*x),
            Num::I(x) => PlaceholderValue::Integer(*x),
            Num::F(x) => PlaceholderValue::Float(*x),
            Num::D(x) => PlaceholderValue::FixedDecimal(x.clone()),
        }
    }
    fn fixed(&self) -> FixedDecimal {
        match self {
            Num::U(x) => FixedDecimal::from(*x),
            Num::I(x) => FixedDecimal::from(*x),
            Num::F(x) => FixedDecimal::try_from_f64(*x, DoublePrecision::Floating).unwrap_or_else(|_| panic!()),
            Num::D(x) => x.clone(),
        }
    }
    fn unsigned(&self) -> Option<u128> {
        match self {
            Num::U(x) => Some(*x),
            Num::I(x) if *x >= 0 => Some(*x as u128),
            _ => None,
        }
    }
    fn negative(&self) -> bool {
        match self {
            Num::U(_) => false,
            Num::I(x) => *x < 0,
            Num::F(x) => *x < 0.0,
            Num::D(x) => x.sign() == fixed_decimal::Sign::Negative,
        }
    }
}
/// Languages with different plural rules, digits and grouping.
pub const LANGS: [&str; 4] = ["en", "pl", "ar", "it"];

/// The CLDR plural rules of the languages above, for non-negative integers.
fn category(lang: &str, n: u128, ordinal: bool) -> &'static str {
    let (d, h) = (n % 10, n % 100);
    if ordinal {
        return match lang {
            "en" => match (d, h) {
                (1, x) if x != 11 => "one",
                (2, x) if x != 12 => "two",
                (3, x) if x != 13 => "few",
                _ => "other",
            },
            "it" => match n {
                8 | 11 | 80 | 800 => "many",
                _ => "other",
            },
            _ => "other",
        };
    }
    match lang {
        "en" => {
            if n == 1 {
                "one"
            } else {
                "other"
            }
        }
        "it" => {
            if n == 1 {
                "one"
            } else if n != 0 && n % 1_000_000 == 0 {
                "many"
            } else {
                "other"
            }
        }
        "pl" => {
            if n == 1 {
                "one"
            } else if (2..=4).contains(&d) && !(12..=14).contains(&h) {
                "few"
            } else {
                "many"
            }
        }
        _ => match n {
            0 => "zero",
            1 => "one",
            2 => "two",
            _ => match h {
                3..=10 => "few",
                11..=99 => "many",
                _ => "other",
            },
        },
    }
}
/// English decimal notation with thousands separators from `least` digits on.
fn english(n: u128, least: usize) -> String {
    let mut v = vec![];
    let mut m = n;
    loop {
        v.push(b'0' + (m % 10) as u8);
        m /= 10;
        if m == 0 {
            break;
        }
    }
    let mut s = String::new();
    for i in (0..v.len()).rev() {
        s.push(v[i] as char);
        if i > 0 && i % 3 == 0 && v.len() >= least {
            s.push(',');
        }
    }
    s
}
fn locale(lang: &str) -> DataLocale {
    let l: Locale = lang.parse().unwrap_or_else(|_| panic!());
    DataLocale::from(&l)
}
fn grouping(group: &str) -> options::GroupingStrategy {
    match group {
        "never" => options::GroupingStrategy::Never,
        "always" => options::GroupingStrategy::Always,
        "min2" => options::GroupingStrategy::Min2,
        _ => options::GroupingStrategy::Auto,
    }
}
/// Formatted without a sign.
fn magnitude(lang: &str, n: &Num, group: &str) -> String {
    if lang == "en" {
        if let Some(x) = n.unsigned() {
            return english(
                x,
                match group {
                    "never" => 100,
                    "min2" => 5,
                    _ => 4,
                },
            );
        }
    }
    let mut o = options::FixedDecimalFormatterOptions::default();
    o.grouping_strategy = grouping(group);
    let f = FixedDecimalFormatter::try_new(&locale(lang), o).unwrap_or_else(|_| panic!());
    let mut d = n.fixed();
    d.set_sign(fixed_decimal::Sign::None);
    f.format_to_string(&d)
}
/// Values of the placeholders `n` and `m` in a language; `t` is the text "T".
pub struct Numbers {
    pub lang: &'static str,
    pub n: Num,
    pub m: Num,
}
impl Numbers {
    fn get(&self, name: &str) -> Option<&Num> {
        match name {
            "n" => Some(&self.n),
            "m" => Some(&self.m),
            _ => None,
        }
    }
    pub fn values(&self) -> Values {
        let mut v = Values::new();
        v.insert("n".to_string(), self.n.value());
        v.insert("m".to_string(), self.m.value());
        v.insert("t".to_string(), PlaceholderValue::String("T".to_string()));
        v
    }
}
impl spec::World for Numbers {
    fn text(&self, name: &str) -> Option<String> {
        if name == "t" {
            Some("T".to_string())
        } else {
            None
        }
    }
    fn category(&self, name: &str, ordinal: bool) -> Option<(&'static str, String)> {
        let x = self.get(name)?;
        if ordinal && !matches!(x, Num::U(_)) {
            return None;
        }
        let s = magnitude(self.lang, x, "auto");
        if let Some(u) = x.unsigned() {
            let c = category(self.lang, u, ordinal);
            sym::fork(c.len() as u64 * 256 + c.as_bytes()[0] as u64);
            return Some((c, s));
        }
        let r = PluralRules::try_new_cardinal(&locale(self.lang)).unwrap_or_else(|_| panic!());
        let c = match r.category_for(&x.fixed()) {
            PluralCategory::Zero => "zero",
            PluralCategory::One => "one",
            PluralCategory::Two => "two",
            PluralCategory::Few => "few",
            PluralCategory::Many => "many",
            PluralCategory::Other => "other",
        };
        Some((c, s))
    }
    fn decimal(&self, name: &str, sign: &str, group: &str) -> Option<String> {
        let x = self.get(name)?;
        let m = magnitude(self.lang, x, group);
        let zero = x.fixed().is_zero();
        let neg = x.negative();
        let s = match sign {
            "never" => "",
            "always" => {
                if neg {
                    "-"
                } else {
                    "+"
                }
            }
            "except_zero" => {
                if zero {
                    ""
                } else if neg {
                    "-"
                } else {
                    "+"
                }
            }
            "negative" => {
                if neg && !zero {
                    "-"
                } else {
                    ""
                }
            }
            _ => {
                if neg {
                    "-"
                } else {
                    ""
                }
            }
        };
        Some(format!("{}{}", s, m))
    }
    fn date_time(&self, _: &str, _: &str, _: &str) -> Option<String> {
        None
    }
    fn command(&self, _: &str, _: bool, _: &[String]) -> Option<String> {
        None
    }
}
const BASES: [u128; 6] = [0, 900, 9_900, 999_900, 1_000_000, u64::MAX as u128 - 100];
/// A base out of the first `param(1)` ones plus any byte.
fn number(kind: u64) -> Num {
    let b = BASES[sym::pick(sym::param(1) as u64) as usize];
    let n = b + sym::byte() as u128;
    match kind {
        0 => Num::U(n),
        _ => Num::I(n as i128),
    }
}
const CATS: [(&str, &str); 5] = [("zero", "a"), ("one", "b"), ("two", "c"), ("few", "d"), ("many", "e")];
/// Plural and ordinal patterns with any subset of the selectors; param(0): 0 plural, 1 ordinal.
pub fn h_plural() {
    let ordinal = sym::param(0) == 1;
    let lang = LANGS[sym::pick(4) as usize];
    let mask = sym::pick(32);
    let mut s = String::from(if ordinal { "x{n ordinal" } else { "x{n plural" });
    for i in 0..5 {
        if mask >> i & 1 == 1 {
            s.push_str(&format!(" {}#{}", CATS[i].0, CATS[i].1));
        }
    }
    s.push_str(" other#f}y#{a Z#z}{b O#}{c #W}{d F}{e # #M}{f #}");
    let n = number(if ordinal { 0 } else { sym::pick(2) });
    let w = Numbers { lang, n, m: Num::U(3) };
    compare_in(lang, &s, &w, &w.values(), PLACE);
}
/// A decimal number with up to two fraction digits (trailing zeros kept), or a float.
fn fraction() -> Num {
    const F: [f64; 8] = [0.0, 1.0, 1.5, 2.0, 0.1, 1234.5, 1e6, 12345678.25];
    let k = sym::pick(4);
    if k == 3 {
        return Num::F(F[sym::pick(8) as usize]);
    }
    let mut d = FixedDecimal::from(sym::byte() as u32);
    d.multiply_pow10(-(k as i16));
    Num::D(d)
}
/// Plural of numbers with fractions.
pub fn h_plural_fraction() {
    let lang = LANGS[sym::pick(4) as usize];
    let s = "x{n plural zero#a one#b two#c few#d many#e other#f}y#{a Z#z}{b O#}{c #W}{d F}{e # #M}{f #}";
    let w = Numbers { lang, n: fraction(), m: Num::U(3) };
    compare_in(lang, s, &w, &w.values(), PLACE);
}
/// Two numbers: branches that are used twice, and patterns within branches.
pub fn h_plural_two() {
    const S: [&str; 7] = [
        "{n plural one#a other#b} {m plural one#a other#b}#{a #1}{b #s}",
        "{m plural one#a other#b} {n plural one#b other#a}#{a #1}{b (#)}",
        "{n plural one#b other#c}#{a <#>}{b #:{m plural other#a}:#}{c {t}#}",
        "{n plural one#b other#b}.{t}#{a <#>}{z .}{b {m plural one#z other#a}:#}",
        "{t select T#c other#b}#{a #a}{b -}{c [{n plural one#b other#a}|{m ordinal one#b other#a}]}",
        "{n plural other#c}#{a x#}{b {m plural one#a other#a}.}{c # {t select T#b other#a} #}",
        "{n decimal}{m plural few#a other#b}#{a few #}{b {t} #`#{`#`}}",
    ];
    let k = sym::pick(S.len() as u64) as usize;
    sym::cover(10 + k as u32);
    let w = Numbers {
        lang: LANGS[sym::pick(2) as usize],
        n: Num::U(sym::byte() as u128),
        m: Num::U(900 + sym::byte() as u128),
    };
    compare_in(w.lang, S[k], &w, &w.values(), PLACE);
}
/// decimal patterns with every combination of options.
pub fn h_decimal() {
    const SIGN: [&str; 6] = ["", " sign#auto", " sign#never", " sign#always", " sign#except_zero", " sign#negative"];
    const GROUP: [&str; 5] = ["", " group#auto", " group#never", " group#always", " group#min2"];
    let lang = if sym::param(0) == 0 { "en" } else { ["pl", "ar", "it"][sym::pick(3) as usize] };
    let (a, b) = (SIGN[sym::pick(6) as usize], GROUP[sym::pick(5) as usize]);
    let s = if sym::flag() { format!("{{n decimal{}{}}}", a, b) } else { format!("<{{n decimal{}{}  }}>", b, a) };
    let n = match sym::pick(4) {
        0 => number(0),
        1 => number(1),
        2 => match number(1) {
            Num::I(x) => Num::I(-x),
            x => x,
        },
        _ => {
            let mut d = FixedDecimal::from(sym::byte() as i32);
            if sym::flag() {
                d.set_sign(fixed_decimal::Sign::Negative);
            }
            d.multiply_pow10(-1);
            Num::D(d)
        }
    };
    if lang == "ar" {
        // the minus sign of Arabic comes with a mark of direction
        sym::assume(!n.negative() && !a.contains("always") && !a.contains("zero"));
    }
    let w = Numbers { lang, n, m: Num::U(3) };
    compare_in(lang, &s, &w, &w.values(), PLACE);
}
/// decimal patterns with mistaken options or values.
pub fn h_decimal_bad() {
    const S: [&str; 6] = [
        "{n decimal sign#??}",
        "{n decimal group#a??o}",
        "{n decimal ?ign#auto}",
        "{n decimal group#m?n?}",
        "{n decimal sign#a?to group#a?to}",
        "{n decimal?sign#auto?group#never}",
    ];
    let s = fill(S[sym::pick(S.len() as u64) as usize]);
    let w = Numbers { lang: "en", n: Num::U(12345), m: Num::U(3) };
    compare(&s, &w, &w.values(), PLACE | REJECT);
}
