//! Language tags, their registry, script data, tagged strings.
use crate::mock::*;
use crate::sym;
use i18n_utility::*;
use icu_locid::Locale;
use icu_locid_transform::{Direction as IcuDirection, LocaleDirectionality, LocaleExpander};
use std::cell::Cell;
use std::rc::Rc;

/// The canonical form of a language identifier, and `None` for what is none.
fn canonical(s: &str) -> Option<String> {
    let mut parts: Vec<Vec<u8>> = vec![vec![]];
    for b in s.bytes() {
        if sym::fork(((b == b'-') | (b == b'_')) as u64) == 1 {
            parts.push(vec![]);
        } else {
            parts.last_mut().unwrap().push(b);
        }
    }
    let alpha = |p: &[u8]| p.iter().fold(true, |a, c| a & c.is_ascii_alphabetic());
    let digit = |p: &[u8]| p.iter().fold(true, |a, c| a & c.is_ascii_digit());
    let alnum = |p: &[u8]| p.iter().fold(true, |a, c| a & c.is_ascii_alphanumeric());
    let lower = |p: &[u8]| p.iter().map(|c| c.to_ascii_lowercase()).collect::<Vec<u8>>();
    let yes = |b: bool| sym::fork(b as u64) == 1;
    let mut i = parts.iter();
    let p = i.next()?;
    if !matches!(p.len(), 2 | 3) || !yes(alpha(p)) {
        return None;
    }
    let mut out = lower(p);
    let mut variants: Vec<Vec<u8>> = vec![];
    let mut at = 0;
    for p in i {
        if at < 1 && p.len() == 4 && yes(alpha(p)) {
            at = 1;
            out.push(b'-');
            let mut t = lower(p);
            t[0] = t[0].to_ascii_uppercase();
            out.extend(t);
        } else if at < 2 && ((p.len() == 2 && yes(alpha(p))) || (p.len() == 3 && yes(digit(p)))) {
            at = 2;
            out.push(b'-');
            out.extend(p.iter().map(|c| c.to_ascii_uppercase()));
        } else if (matches!(p.len(), 5..=8) && yes(alnum(p))) || (p.len() == 4 && yes(alnum(p) & p[0].is_ascii_digit())) {
            at = 3;
            let v = lower(p);
            let mut k = 0;
            while k < variants.len() && yes(variants[k] < v) {
                k += 1;
            }
            if k < variants.len() && yes(variants[k] == v) {
                // a variant given twice is not a language identifier
                return None;
            }
            variants.insert(k, v);
        } else {
            return None;
        }
    }
    for v in variants {
        out.push(b'-');
        out.extend(v);
    }
    String::from_utf8(out).ok()
}
fn fill(skeleton: &str) -> String {
    let mut s = String::new();
    for c in skeleton.chars() {
        if c == '?' {
            let b = sym::byte();
            sym::assume(b < 128);
            s.push(b as char);
        } else {
            s.push(c);
        }
    }
    s
}
const FORMS: [&str; 14] = [
    "", "?", "??", "???", "en?ZA", "??-za", "en-?a?n-ZA", "EN_L??N_zA", "e?-US-posix", "en-??9-19?6", "fr-abcd?-aaaa?", "??????", "de-Latn-D?-?9?6", "en-?-?",
];
/// Any history of requests: canonical tags, one object per tag, complete lists, nothing for malformed ones.
pub fn h_registry() {
    let r = LanguageTagRegistry::new();
    let mut known: Vec<(String, Rc<LanguageTag>)> = vec![];
    let mut aliases: Vec<String> = vec![];
    for _ in 0..sym::param(0) {
        let k = sym::pick(sym::param(1) as u64) as usize;
        let s = fill(FORMS[k]);
        sym::cover(10 + k as u32);
        let want = canonical(&s);
        let got = r.tag(&s);
        match want {
            None => {
                check!(got.is_err());
                sym::cover(2);
            }
            Some(c) => {
                check!(got.is_ok());
                let Ok(t) = got else { return };
                check!(t.as_str() == c);
                sym::observe_str(t.as_str());
                let mut old = None;
                for x in known.iter() {
                    if sym::fork((x.0 == c) as u64) == 1 {
                        old = Some(Rc::clone(&x.1));
                    }
                }
                if sym::fork((c != s) as u64) == 1 && sym::fork(aliases.iter().any(|a| *a == s) as u64) == 0 {
                    aliases.push(s);
                }
                match old {
                    Some(x) => {
                        check!(Rc::ptr_eq(&x, &t));
                        sym::cover(3);
                    }
                    None => known.push((c.clone(), Rc::clone(&t))),
                }
                // idempotent
                check!(matches!(r.tag(&c), Ok(x) if Rc::ptr_eq(&x, &t)));
                let i = r.icu_language(&t);
                check!(i.to_string() == c);
                check!(t.icu_language() == *i);
                check!(Rc::ptr_eq(&r.icu_language(&t), &i));
                sym::cover(1);
            }
        }
        let list = r.list();
        check!(list.len() == known.len());
        for x in known.iter() {
            check!(list.iter().any(|t| Rc::ptr_eq(t, &x.1)));
        }
        check!(r.list_deprecated().len() == aliases.len());
        check!(r.list_all().len() == aliases.len() + known.len());
    }
}
/// The data of a script is that script's, and its horizontal direction is the one ICU knows.
pub fn h_script_direction() {
    let registry = Rc::new(LanguageTagRegistry::new());
    let icu = crate::p_lexer::icu();
    let s = if sym::param(0) == 0 {
        let mut s = String::from("und-");
        for i in 0..4 {
            let b = sym::byte();
            sym::assume(if i == 0 { b.is_ascii_uppercase() } else { b.is_ascii_lowercase() });
            s.push(b as char);
        }
        s
    } else {
        let mut s = String::new();
        for _ in 0..sym::param(0) {
            let b = sym::byte();
            sym::assume(b.is_ascii_lowercase());
            s.push(b as char);
        }
        s
    };
    let mock = Mock {
        recs: vec![],
        default: registry.tag("en").unwrap_or_else(|_| panic!()),
        calls: Rc::new(Cell::new(0)),
    };
    let l = world(&icu, &registry, mock, false, false, "en").localiser;
    let Ok(tag) = registry.tag(&s) else { panic!() };
    let data = l.script_data_for_language_tag(&tag);
    if l.defaults(Some(Rc::clone(&tag)), None, None).is_err() {
        check!(false);
    }
    let again = l.script_data();
    check!(data.is_some() == again.is_some());
    let Some(data) = data else {
        sym::cover(2);
        return;
    };
    let locale: Locale = tag.as_str().parse().unwrap_or_else(|_| panic!());
    let icu = LocaleDirectionality::new_with_expander(LocaleExpander::new_extended()).get(&locale);
    let mut horizontal = vec![];
    for d in data.directions.iter() {
        let (line, grapheme) = d.directions();
        check!(line == d.line());
        check!(grapheme == d.grapheme());
        let vertical = |x: &Direction| matches!(x, Direction::TopToBottom | Direction::BottomToTop);
        check!(vertical(&line) != vertical(&grapheme));
        if !vertical(&grapheme) {
            horizontal.push(grapheme);
        }
    }
    check!(!data.directions.is_empty());
    if s.ends_with("Todr") || horizontal.is_empty() {
        // Todhri: sources disagree
        sym::cover(3);
        return;
    }
    match icu {
        Some(IcuDirection::LeftToRight) => {
            check!(horizontal.contains(&Direction::LeftToRight));
            sym::cover(1);
        }
        Some(IcuDirection::RightToLeft) => {
            check!(horizontal.contains(&Direction::RightToLeft));
            sym::cover(4);
        }
        _ => sym::cover(5),
    }
    let mut o = vec![];
    for h in horizontal {
        o.push((h == Direction::RightToLeft) as u8);
    }
    sym::observe(&o);
}
/// A tagged string keeps its text and its tag.
pub fn h_tagged() {
    let registry = LanguageTagRegistry::new();
    let tag = registry.tag("fr-CA").unwrap_or_else(|_| panic!());
    let s = sym::ascii(sym::pick(sym::param(0) as u64 + 1) as usize);
    let t = TaggedString::new(s.clone(), &tag);
    check!(t.as_str() == s);
    check!(*t.as_string() == s);
    check!(format!("{}", t) == s);
    check!(Rc::ptr_eq(t.tag(), &tag));
    sym::cover(1);
}
