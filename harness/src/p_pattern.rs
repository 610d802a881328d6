//! Formatting of pattern strings through the localiser, compared with the reference reading of the grammar.
use crate::mock::*;
use crate::p_lexer::rep;
use crate::spec::{self, Bad};
use crate::sym;
use i18n_utility::*;
use std::collections::HashMap;

/// Which verdicts a run asserts: the others are left to the property they belong to.
pub const LITERAL: usize = 1; // accepted patterns without placeholders
pub const PLACE: usize = 2; // patterns with placeholders
pub const REJECT: usize = 4; // malformed patterns

pub type Values = HashMap<String, PlaceholderValue>;

pub struct Texts<'a>(pub &'a [(&'a str, &'a str)]);
impl<'a> spec::World for Texts<'a> {
    fn text(&self, name: &str) -> Option<String> {
        self.0.iter().find(|x| x.0 == name).map(|x| x.1.to_string())
    }
    fn category(&self, _: &str, _: bool) -> Option<(&'static str, String)> {
        None
    }
    fn decimal(&self, _: &str, _: &str, _: &str) -> Option<String> {
        None
    }
    fn date_time(&self, _: &str, _: &str, _: &str) -> Option<String> {
        None
    }
    fn command(&self, _: &str, _: bool, _: &[String]) -> Option<String> {
        None
    }
}
pub fn texts(v: &[(&str, &str)]) -> Values {
    v.iter().map(|x| (x.0.to_string(), PlaceholderValue::String(x.1.to_string()))).collect()
}
/// The library's result for a pattern in language `lang`.
pub fn run(s: &str, lang: &str, values: &Values) -> Option<String> {
    let (w, tag) = one(s.to_string(), lang);
    let r = w.localiser.format("c", "s", values, &tag, None, None);
    match r {
        Ok((s, t)) => {
            check!(t.as_str() == lang);
            sym::observe_str(&s);
            Some(s.to_string())
        }
        Err(_) => {
            sym::observe(&[1]);
            None
        }
    }
}
/// Compares the library with the reference on one pattern.
pub fn compare(s: &str, world: &dyn spec::World, values: &Values, what: usize) {
    compare_in("en", s, world, values, what)
}
pub fn compare_in(lang: &str, s: &str, world: &dyn spec::World, values: &Values, what: usize) {
    let expect = spec::format(s, world);
    let places = s.contains('{') && spec::parse(s).map(|a| has_place(&a)).unwrap_or(false);
    let got = run(s, lang, values);
    match expect {
        Ok(t) => {
            if places {
                if what & PLACE != 0 {
                    check!(got.as_deref() == Some(t.as_str()));
                }
                sym::cover(2);
            } else {
                if what & LITERAL != 0 {
                    check!(got.as_deref() == Some(t.as_str()));
                }
                sym::cover(1);
            }
        }
        Err(Bad::Malformed) => {
            if places {
                if what & PLACE != 0 {
                    check!(got.is_none());
                }
                sym::cover(4);
            } else {
                if what & REJECT != 0 {
                    check!(got.is_none());
                }
                sym::cover(3);
            }
        }
        Err(Bad::Unspecified) => sym::cover(5),
    }
}
fn has_place(a: &spec::Ast) -> bool {
    let p = |n: &spec::Node| matches!(n, spec::Node::Pattern(..));
    a.main.iter().any(p) || a.named.iter().any(|x| x.1.iter().any(p))
}

const AB: [(&str, &str); 2] = [("a", "XY"), ("bc", "{`#} ")];

/// Any ASCII pattern of 1..=N characters.
pub fn h_ref_ascii() {
    let s = sym::ascii(1 + sym::pick(sym::param(0) as u64) as usize);
    compare(&s, &Texts(&AB), &texts(&AB), sym::param(1));
}
/// Skeletons with holes: `?` any ASCII character, `!` any representative code point.
pub fn fill(skeleton: &str) -> String {
    let mut s = String::new();
    for c in skeleton.chars() {
        match c {
            '?' => {
                let b = sym::byte();
                sym::assume(b < 128);
                s.push(b as char);
            }
            '!' => {
                let c = rep();
                sym::fork(c.len_utf8() as u64);
                s.push(c)
            }
            c => s.push(c),
        }
    }
    s
}
/// One of the skeletons selected by the bit mask `param(0)`.
pub fn choose(list: &'static [&'static str]) -> &'static str {
    let mask = sym::param(0);
    let sel: Vec<usize> = (0..list.len()).filter(|i| mask >> i & 1 == 1).collect();
    let k = sel[sym::pick(sel.len() as u64) as usize];
    sym::cover(10 + k as u32);
    list[k]
}
/// Patterns with symbolic holes.
pub fn h_ref_skel() {
    const SKEL: [&str; 14] = [
        "!`!!",
        "!{`!`}!",
        "{`??``?`}?",
        "{a}!{bc}!",
        "?{a?}??{bc}",
        "x {a} `{{`!``!`}!{bc} y",
        "{?}{a}?{b?}",
        "{a select XY#n other#n}#{n ???}",
        "{a select XY#n other#n}#{n ?{bc}?}",
        "{a?select XY#n?other#n}#?{n x}",
        "{a select XY#n other#m}?{n x}?{m ?}",
        "{bc}{a select X?#n other#m}#{n x`?}{m !y}",
        "!#{n !!}",
        "{a select XY#n other#n}#{n `?`??}",
    ];
    let s = fill(choose(&SKEL));
    compare(&s, &Texts(&AB), &texts(&AB), sym::param(1));
}
