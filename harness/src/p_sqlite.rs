//! The SQLite3 provider on databases made with the schema it ships.
use crate::sym;
use i18n_provider::LocalisationProviderTrait;
use i18n_provider_sqlite3::LocalisationProviderSqlite3;
use i18n_utility::*;
use rusqlite::Connection;
use std::rc::Rc;

const SCHEMA: &str = include_str!("/repo/crates/provider/sqlite3/l10n/schema.sql");

fn open(name: &str) -> Connection {
    let c = Connection::open(name).unwrap_or_else(|_| panic!());
    if c.execute_batch(SCHEMA).is_err() {
        panic!();
    }
    if c.execute_batch("PRAGMA foreign_keys = off; INSERT INTO metadata (component, key, value) VALUES ('c', 'schema_version', '1.0');").is_err() {
        panic!();
    }
    c
}
fn pattern(c: &Connection, component: &str, identifier: &str, tag: &str, string: &str) {
    if c.execute("INSERT INTO pattern (component, identifier, languageTag, string) VALUES (?1, ?2, ?3, ?4)", [component, identifier, tag, string]).is_err() {
        panic!();
    }
}

fn letter(upper: bool) -> char {
    let b = sym::byte();
    sym::assume(if upper { b.is_ascii_uppercase() } else { b.is_ascii_lowercase() });
    b as char
}
/// Free letters for `?` (lower case) and `!` (upper case).
fn fill(form: &str) -> String {
    form.chars()
        .map(|c| match c {
            '?' => letter(false),
            '!' => letter(true),
            c => c,
        })
        .collect()
}
fn same(a: &str, b: &str) -> bool {
    a.len() == b.len() && sym::fork((a == b) as u64) == 1
}
struct Rec {
    aio: bool,
    component: String,
    identifier: String,
    tag: String,
    string: String,
}
/// Is `tag` the language `wanted`, or one of its kind?
fn kind_of(tag: &str, wanted: &str) -> bool {
    same(tag, wanted) || tag.len() > wanted.len() && same(&tag[..wanted.len() + 1], &format!("{}-", wanted))
}
/// The records that answer a request, nearest language first.
fn answer<'a>(recs: &'a [Rec], aio: bool, component: &str, identifier: &str, tag: &str) -> (Vec<&'a Rec>, String) {
    let mine: Vec<&Rec> = recs.iter().filter(|r| r.aio == aio && same(&r.component, component) && same(&r.identifier, identifier)).collect();
    let mut t = tag.to_string();
    loop {
        let found: Vec<&Rec> = mine.iter().filter(|r| kind_of(&r.tag, &t)).copied().collect();
        if !found.is_empty() {
            return (found, t);
        }
        match t.rsplit_once('-') {
            None => return (vec![], t),
            Some((l, _)) => t = l.to_string(),
        }
    }
}
const TAGS: [&str; 4] = ["e?", "e??", "e?-Z!", "e?-Latn-Z!"];
const ASKED: [&str; 5] = ["en", "en-ZA", "en-Latn-ZA", "enm", "fr"];
pub fn h_sql_strings() {
    let which = sym::pick(3);
    let (own, aio) = (which != 1, which != 0);
    if std::fs::create_dir("d").is_err() {
        panic!();
    }
    let a = if aio { Some(open("d/__all_in_one__.sqlite3")) } else { None };
    let o = if own { Some(open("d/c.sqlite3")) } else { None };
    let mut recs = vec![];
    if let Some(a) = &a {
        if a.execute_batch("INSERT INTO component (identifier, languageTag, added) VALUES ('c', 'en', '2024-01-01'), ('d', 'en', '2024-01-01')").is_err() {
            panic!();
        }
    }
    for i in 0..sym::param(0) {
        let in_aio = aio && (!own || sym::flag());
        let free = i == 0 || sym::param(2) == 1;
        let component = if in_aio && free { ["c", "d"][sym::pick(2) as usize] } else { "c" }.to_string();
        let identifier = fill(if free { "?" } else { "i" });
        let tag = fill(TAGS[sym::pick(sym::param(1) as u64) as usize]);
        let string = format!("s{}{}", i, sym::ascii(1));
        let db = if in_aio { a.as_ref() } else { o.as_ref() };
        let Some(db) = db else { panic!() };
        if db.execute("INSERT INTO pattern (component, identifier, languageTag, string) VALUES (?1, ?2, ?3, ?4)", [&component, &identifier, &tag, &string]).is_err() {
            // the same string a second time: refused by the schema
            sym::assume(false);
        }
        recs.push(Rec { aio: in_aio, component, identifier, tag, string });
    }
    drop(a);
    drop(o);
    let r = Rc::new(LanguageTagRegistry::new());
    let p = LocalisationProviderSqlite3::try_new("d", &r, false);
    check!(p.is_ok());
    let Ok(p) = p else { return };
    let component = ["c", "d", "e"][sym::pick(3) as usize];
    let asked = ASKED[sym::pick(5) as usize];
    let tag = r.tag(asked).unwrap_or_else(|_| panic!());
    let known = component == "c" || component == "d" && aio;
    let (mut found, mut level) = answer(&recs, true, component, "i", asked);
    if found.is_empty() {
        (found, level) = answer(&recs, false, component, "i", asked);
    }
    let has = |s: &str, t: &LanguageTag| found.iter().any(|r| same(&r.string, s) && same(&r.tag, t.as_str()));
    match sym::pick(3) {
        0 => {
            let got = p.string(component, "i", &tag);
            check!(got.is_ok() == known);
            let Ok(got) = got else {
                sym::cover(1);
                return;
            };
            match got {
                None => {
                    check!(found.is_empty());
                    sym::cover(2);
                }
                Some((s, t)) => {
                    check!(has(&s, &t));
                    // the language itself goes before its kind
                    if found.iter().any(|r| same(&r.tag, &level)) {
                        check!(same(t.as_str(), &level));
                        sym::cover(3);
                    } else {
                        sym::cover(4);
                    }
                    sym::observe_str(&s);
                    sym::observe_str(t.as_str());
                }
            }
        }
        1 => {
            let got = p.strings(component, "i", &tag);
            check!(got.is_ok() == known);
            let Ok(got) = got else { return };
            check!(got.len() == found.len());
            for (s, t) in got.iter() {
                check!(has(s, t));
            }
            for (k, x) in got.iter().enumerate() {
                for y in got[..k].iter() {
                    check!(!same(x.1.as_str(), y.1.as_str()));
                }
            }
            sym::cover(if got.is_empty() { 5 } else { 6 });
        }
        _ => {
            let got = p.string_exact_match(component, "i", &tag);
            check!(got.is_ok() == known);
            let Ok(got) = got else { return };
            let exact = |aio: bool| recs.iter().find(|r| r.aio == aio && same(&r.component, component) && same(&r.identifier, "i") && same(&r.tag, asked));
            match exact(true).or_else(|| exact(false)) {
                None => {
                    check!(got.is_none());
                    sym::cover(7);
                }
                Some(r) => {
                    check!(matches!(&got, Some((s, t)) if same(s, &r.string) && same(t.as_str(), asked)));
                    sym::cover(8);
                }
            }
        }
    }
}

// ---- details ----
const LANGS: [&str; 3] = ["en", "en-ZA", "fr"];
struct Fact {
    aio: bool,
    component: &'static str,
    tag: &'static str,
    text: String,
}
fn run(db: &Connection, sql: &str, values: &[&str]) {
    if db.execute(sql, rusqlite::params_from_iter(values.iter())).is_err() {
        // refused by the schema: the same fact a second time
        sym::assume(false);
    }
}
fn unique(v: &mut Vec<String>, s: &str) {
    if !v.iter().any(|x| same(x, s)) {
        v.push(s.to_string());
    }
}
/// Same elements, each once.
fn as_set(got: &[String], want: &[String]) -> bool {
    got.len() == want.len() && want.iter().all(|w| got.iter().any(|g| same(g, w)))
}
/// Languages, counts, shares, contributors and defaults are those of the stored records.
/// Bounds: free contributors (0: one for every language, not free), free strings, one or two components,
/// sound repositories only.
pub fn h_sql_details() {
    let which = sym::pick(3);
    let (own, aio) = (which != 1, which != 0);
    if std::fs::create_dir("d").is_err() {
        panic!();
    }
    let names = ["c", "application"];
    let two = sym::param(2) == 1;
    let a = if aio { Some(open("d/__all_in_one__.sqlite3")) } else { None };
    let o = if own { Some(open("d/c.sqlite3")) } else { None };
    let place = || -> (bool, &'static str) {
        let in_aio = aio && (!own || sym::flag());
        (in_aio, if in_aio && two { names[sym::pick(2) as usize] } else { "c" })
    };
    let db = |in_aio: bool| {
        let Some(db) = (if in_aio { a.as_ref() } else { o.as_ref() }) else { panic!() };
        db
    };
    // which components the file of all has, and the defaults
    let mut defaults: Vec<(bool, &str, &str)> = vec![];
    let mut known: Vec<&str> = vec![];
    if own {
        known.push("c");
        let k = sym::pick(3) as usize;
        if k < 2 {
            let t = ["en", "fr"][k];
            run(db(false), "INSERT INTO component (identifier, languageTag, added) VALUES (?1, ?2, '2024-01-01')", &["c", t]);
            defaults.push((false, "c", t));
        }
    }
    if aio {
        let t = ["en", "fr"][sym::pick(2) as usize];
        run(db(true), "INSERT INTO component (identifier, languageTag, added) VALUES (?1, ?2, '2024-01-01')", &["c", t]);
        defaults.push((true, "c", t));
        if !own {
            known.push("c");
        }
        if two {
            run(db(true), "INSERT INTO component (identifier, languageTag, added) VALUES (?1, ?2, '2024-01-01')", &["application", "en"]);
            defaults.push((true, "application", "en"));
            known.push("application");
        }
    }
    let mut people: Vec<Fact> = vec![];
    for _ in 0..sym::param(0) {
        let (aio, component) = place();
        let f = Fact { aio, component, tag: LANGS[sym::pick(3) as usize], text: fill("?") };
        sym::assume(sym::param(3) == 0 || people.last().map(|l| (l.aio, l.component, l.tag) <= (f.aio, f.component, f.tag)).unwrap_or(true));
        run(db(aio), "INSERT INTO contributor (component, languageTag, contributor) VALUES (?1, ?2, ?3)", &[f.component, f.tag, &f.text]);
        people.push(f);
    }
    if sym::param(0) == 0 {
        for component in names.iter().copied().filter(|c| *c == "c" || aio && two) {
            let aio = aio && (!own || component != "c");
            for tag in LANGS {
                run(db(aio), "INSERT INTO contributor (component, languageTag, contributor) VALUES (?1, ?2, 'p')", &[component, tag]);
                people.push(Fact { aio, component, tag, text: "p".to_string() });
            }
        }
    }
    let mut strings: Vec<Fact> = vec![];
    for i in 0..sym::param(1) {
        let (aio, component) = place();
        let tag = LANGS[sym::pick(3) as usize];
        // languages have contributors
        sym::assume(people.iter().any(|p| p.component == component && p.tag == tag));
        let f = Fact { aio, component, tag, text: ["p", "q"][sym::pick(2) as usize].to_string() };
        // in one order only
        sym::assume(sym::param(3) == 0 || strings.last().map(|l| (l.aio, l.component, l.tag, &l.text) < (f.aio, f.component, f.tag, &f.text)).unwrap_or(true));
        // a string is in one file only
        sym::assume(!strings.iter().any(|s| s.component == f.component && s.tag == f.tag && s.text == f.text));
        run(db(aio), "INSERT INTO pattern (component, identifier, languageTag, string) VALUES (?1, ?2, ?3, ?4)", &[f.component, &f.text, f.tag, ["x", "y", "z"][i as usize % 3]]);
        strings.push(f);
    }
    let default = |c: &str| {
        let d = |aio: bool| defaults.iter().find(|d| d.0 == aio && d.1 == c).map(|d| d.2);
        d(true).or_else(|| d(false))
    };
    let languages = |c: Option<&str>| -> Vec<&str> { LANGS.iter().copied().filter(|l| people.iter().any(|p| c.map(|c| c == p.component).unwrap_or(true) && p.tag == *l)).collect() };
    let count = |c: Option<&str>, l: &str| strings.iter().filter(|s| c.map(|c| c == s.component).unwrap_or(true) && s.tag == l).count();
    let by = |c: Option<&str>, l: Option<&str>| {
        let mut v = vec![];
        for p in people.iter() {
            if c.map(|c| c == p.component).unwrap_or(true) && l.map(|l| l == p.tag).unwrap_or(true) {
                unique(&mut v, &p.text);
            }
        }
        v
    };
    // a component without default language, or with one it has nothing of, is an error
    let sound = known.iter().all(|c| default(c).map(|d| languages(Some(c)).contains(&d)).unwrap_or(false));
    sym::assume(sound || sym::param(3) == 0);
    drop(a);
    drop(o);
    let r = Rc::new(LanguageTagRegistry::new());
    let p = LocalisationProviderSqlite3::try_new("d", &r, false);
    check!(p.is_ok());
    let Ok(p) = p else { return };
    let ratio = |n: usize, d: usize, got: f32| d == 0 || got == n as f32 / d as f32;
    let op = sym::pick(3);
    if op == 0 {
        let component = if sym::param(3) == 1 { known[sym::pick(known.len() as u64) as usize] } else { ["c", "application", "x"][sym::pick(3) as usize] };
        let got = p.component_details(component);
        check!(got.is_ok() == (sound && known.contains(&component)));
        let Ok(got) = got else {
            sym::cover(1);
            return;
        };
        let Some(d) = default(component) else { return };
        let ls = languages(Some(component));
        check!(got.default.as_str() == d);
        check!(got.languages.len() == ls.len());
        check!(got.total_strings == ls.iter().map(|l| count(Some(component), l)).sum::<usize>());
        for (t, data) in got.languages.iter() {
            check!(ls.contains(&t.as_str()));
            let n = count(Some(component), t.as_str());
            check!(data.count == n);
            check!(ratio(n, count(Some(component), d), data.ratio));
            check!(as_set(&data.contributors, &by(Some(component), Some(t.as_str()))));
        }
        sym::observe(&[got.total_strings as u8]);
        sym::cover(2);
    } else if op == 1 {
        let got = p.repository_details();
        check!(got.is_ok() == sound);
        let Ok(got) = got else {
            sym::cover(3);
            return;
        };
        let ls = languages(None);
        check!(got.components.len() == known.len());
        check!(known.iter().all(|k| got.components.iter().any(|c| c == k)));
        check!(got.languages.len() == ls.len());
        check!(got.total_strings == strings.len());
        check!(as_set(&got.contributors, &by(None, None)));
        check!(got.default.as_ref().map(|t| t.as_str()) == if known.contains(&"application") { default("application") } else { None });
        for (t, data) in got.languages.iter() {
            check!(ls.contains(&t.as_str()));
            let n = count(None, t.as_str());
            check!(data.count == n);
            if let Some(d) = &got.default {
                check!(ratio(n, count(None, d.as_str()), data.ratio));
            }
            check!(as_set(&data.contributors, &by(None, Some(t.as_str()))));
        }
        sym::observe(&[got.total_strings as u8]);
        sym::cover(4);
    } else {
        let component = if sym::param(3) == 1 { known[sym::pick(known.len() as u64) as usize] } else { ["c", "application", "x"][sym::pick(3) as usize] };
        let got = p.identifier_details(component, "p");
        check!(got.is_ok() == (sound && known.contains(&component)));
        let Ok(got) = got else {
            sym::cover(5);
            return;
        };
        check!(Some(got.default.as_str()) == default(component));
        let want: Vec<&str> = LANGS.iter().copied().filter(|l| strings.iter().any(|s| s.component == component && s.tag == *l && s.text == "p")).collect();
        check!(got.languages.len() == want.len());
        check!(want.iter().all(|w| got.languages.iter().any(|t| t.as_str() == *w)));
        sym::cover(6);
    }
}

// ---- which databases are accepted ----
type Col = (&'static str, &'static str, bool, bool);
const ROW: Col = ("rowID", "INTEGER", true, true);
/// The tables of schema 1.0: name, type, not null, primary key of the columns.
const TABLES: [(&str, &[Col]); 6] = [
    ("component", &[ROW, ("identifier", "TEXT", true, false), ("languageTag", "TEXT", true, false), ("comment", "TEXT", false, false), ("added", "DATE", true, false)]),
    (
        "contributor",
        &[
            ROW,
            ("component", "TEXT", true, false),
            ("languageTag", "TEXT", true, false),
            ("contributor", "TEXT", true, false),
            ("substituteFor", "TEXT", false, false),
            ("comment", "TEXT", false, false),
            ("verified", "DATE", false, false),
        ],
    ),
    ("language", &[ROW, ("tag", "TEXT", true, false), ("englishName", "TEXT", false, false), ("added", "DATE", true, false)]),
    (
        "languageData",
        &[ROW, ("component", "TEXT", true, false), ("languageTag", "TEXT", true, false), ("count", "INTEGER", true, false), ("ratio", "REAL", true, false)],
    ),
    (
        "pattern",
        &[
            ROW,
            ("component", "TEXT", true, false),
            ("identifier", "TEXT", true, false),
            ("languageTag", "TEXT", true, false),
            ("string", "TEXT", true, false),
            ("comment", "TEXT", false, false),
            ("verified", "DATE", false, false),
        ],
    ),
    // of this one only these two are looked at
    ("metadata", &[("key", "TEXT", true, false), ("value", "TEXT", true, false)]),
];
fn sql(c: &Connection, s: &str) {
    if c.execute_batch(s).is_err() {
        panic!();
    }
}
/// A letter other than `c`, whatever the case.
fn other(c: char) -> char {
    let l = letter(false);
    sym::assume(l != c.to_ascii_lowercase());
    l
}
/// A database of the schema with one thing changed is refused, an added column or table is not.
pub fn h_sql_schema() {
    let change = sym::pick(13);
    let shipped = change == 12;
    let table = if change < 9 { sym::pick(6) as usize } else { 0 };
    // of the table of the version only missing columns are found
    sym::assume(table != 5 || matches!(change, 0 | 1 | 2 | 8));
    let column = if matches!(change, 1..=7) { sym::pick(7) as usize } else { 0 };
    sym::assume(column < TABLES[table].1.len());
    let c = match sym::param(0) {
        0 => Connection::open_in_memory(),
        _ => {
            if std::fs::create_dir("d").is_err() {
                panic!();
            }
            Connection::open("d/c.sqlite3")
        }
    };
    let Ok(c) = c else { panic!() };
    let mut version = "1.0".to_string();
    if shipped {
        sql(&c, SCHEMA);
        sql(&c, "PRAGMA foreign_keys = off");
    } else {
        let mut text = String::new();
        for (t, (name, columns)) in TABLES.iter().enumerate() {
            let here = t == table;
            if here && change == 0 {
                continue;
            }
            text.push_str("CREATE TABLE ");
            text.push_str(name);
            text.push('(');
            let mut order: Vec<usize> = (0..columns.len()).collect();
            if here && change == 3 {
                // another order
                sym::assume(column + 1 < columns.len());
                order.swap(column, column + 1);
            }
            let mut first = true;
            for k in order {
                let it = here && k == column;
                let (name, type_, notnull, pk) = columns[k];
                if it && change == 1 {
                    continue;
                }
                if !first {
                    text.push(',');
                }
                first = false;
                text.push('"');
                if it && change == 2 {
                    let mut cs = name.chars();
                    text.push(other(cs.next().unwrap_or('a')));
                    text.push_str(cs.as_str());
                } else {
                    text.push_str(name);
                }
                text.push_str("\" ");
                if it && change == 4 {
                    let types = ["INTEGER", "TEXT", "DATE", "REAL", "BLOB"];
                    let n = types[sym::pick(5) as usize];
                    sym::assume(n != type_);
                    text.push_str(n);
                } else {
                    text.push_str(type_);
                }
                if pk != (it && change == 5) && (pk || k != 0) {
                    // the key is of another column, or of none
                    sym::assume(!(it && change == 5) || !columns[0].3 || pk);
                    text.push_str(" PRIMARY KEY");
                }
                if notnull != (it && change == 6) {
                    text.push_str(" NOT NULL");
                }
                if it && change == 7 {
                    text.push_str(" DEFAULT ");
                    text.push_str(["1", "'a'", "1.5"][sym::pick(3) as usize]);
                }
            }
            if here && change == 8 {
                text.push_str(",additional TEXT");
            }
            text.push_str(");");
        }
        if change == 9 {
            text.push_str("CREATE TABLE additional(x TEXT);");
        }
        sql(&c, &text);
    }
    if change == 10 {
        version = sym::ascii(sym::pick(4) as usize);
    }
    let metadata = if shipped { "INSERT INTO metadata(component, key, value) VALUES('c', 'schema_version', ?1)" } else { "INSERT INTO metadata(key, value) VALUES('schema_version', ?1)" };
    if change != 11 && !(table == 5 && change < 3) {
        run(&c, metadata, &[&version]);
    }
    let same_version = version.len() == 3 && sym::fork((version == "1.0") as u64) == 1;
    let good = match change {
        0..=7 | 11 => false,
        10 => same_version,
        _ => true,
    };
    // an order of the columns the version table does not matter
    if change == 3 && table == 5 {
        return;
    }
    if sym::param(0) == 0 {
        let v = i18n_provider_sqlite3::verify_schema(&c);
        check!(v.is_ok() == good);
        if let Ok(v) = v {
            check!(v == "1.0");
        }
    } else {
        drop(c);
        let r = Rc::new(LanguageTagRegistry::new());
        let p = LocalisationProviderSqlite3::try_new("d", &r, false);
        check!(p.is_ok() == good);
    }
    sym::observe(&[good as u8]);
    sym::cover(change as u32 + 1);
}

/// What a directory is made of, and what the provider knows then.
pub fn h_sql_open() {
    use std::os::unix::ffi::OsStrExt;
    // not a directory
    if sym::flag() {
        if sym::flag() {
            if std::fs::write("d", b"").is_err() {
                panic!();
            }
            sym::cover(1);
        } else {
            sym::cover(2);
        }
        check!(LocalisationProviderSqlite3::try_new("d", &Rc::new(LanguageTagRegistry::new()), false).is_err());
        return;
    }
    if std::fs::create_dir("d").is_err() {
        panic!();
    }
    let mut known: Vec<String> = vec![];
    let mut bad = false;
    for i in 0..sym::param(0) {
        match sym::pick(9) {
            0 => {
                // the component of a name
                let name = fill(["?", "?.?", "__all_in_one_?"][sym::pick(3) as usize]);
                let path = format!("d/{}.sqlite3", name);
                if known.iter().any(|k| same(k, &name)) {
                    return;
                }
                open(&path);
                known.push(name);
                sym::cover(3);
            }
            1 => {
                // all in one
                if std::fs::metadata("d/__all_in_one__.sqlite3").is_ok() {
                    return;
                }
                let c = open("d/__all_in_one__.sqlite3");
                let name = fill("?");
                run(&c, "INSERT INTO component (identifier, languageTag, added) VALUES (?1, 'en', '2024-01-01')", &[&name]);
                run(&c, "INSERT INTO component (identifier, languageTag, added) VALUES ('zz', 'en', '2024-01-01')", &[]);
                unique(&mut known, &name);
                known.push("zz".to_string());
                sym::cover(4);
            }
            2 => {
                // not a database: some other text, or an empty file
                let n = [0, 1, 20][sym::pick(3) as usize];
                let mut text = sym::ascii(n.min(2)).into_bytes();
                text.resize(n, b'x');
                if std::fs::write(format!("d/not{}.sqlite3", i), &text).is_err() {
                    panic!();
                }
                bad = true;
                sym::cover(5);
            }
            3 => {
                // other names are not looked at
                let name = ["a.txt", "sqlite3", ".sqlite3", "a.sqlite", "a.sqlite33", "a.sqlite3.bak", "a"][sym::pick(7) as usize];
                if std::fs::write(format!("d/{}", name), b"other").is_err() {
                    panic!();
                }
                sym::cover(6);
            }
            4 => {
                // nor are directories
                let name = ["sub", "sub.sqlite3"][sym::pick(2) as usize];
                if std::fs::create_dir(format!("d/{}", name)).is_err() {
                    return;
                }
                open(&format!("d/{}/q.sqlite3", name));
                sym::cover(7);
            }
            5 => {
                // a name that is not UTF-8
                let path = std::path::Path::new("d").join(std::ffi::OsStr::from_bytes(b"a\xff.sqlite3"));
                if std::fs::write(path, b"other").is_err() {
                    panic!();
                }
                sym::cover(8);
            }
            6 => {
                // a database of something else
                let Ok(c) = Connection::open(format!("d/else{}.sqlite3", i)) else { panic!() };
                sql(&c, "CREATE TABLE x(y TEXT)");
                bad = true;
                sym::cover(9);
            }
            7 => {
                // a database of another version
                let c = open(&format!("d/later{}.sqlite3", i));
                sql(&c, "UPDATE metadata SET value = '1.1'");
                bad = true;
                sym::cover(10);
            }
            _ => {}
        }
    }
    let r = Rc::new(LanguageTagRegistry::new());
    let p = LocalisationProviderSqlite3::try_new("d", &r, sym::flag());
    check!(p.is_ok() == (!bad && !known.is_empty()));
    let Ok(p) = p else {
        sym::cover(11);
        return;
    };
    let ask = fill(["?", "__all_in_one__", "a.txt", "zz"][sym::pick(4) as usize]);
    let tag = r.tag("en").unwrap_or_else(|_| panic!());
    let is = known.iter().any(|k| same(k, &ask));
    check!(p.string(&ask, "i", &tag).is_ok() == is);
    check!(p.strings(&ask, "i", &tag).is_ok() == is);
    check!(p.string_exact_match(&ask, "i", &tag).is_ok() == is);
    sym::cover(if is { 12 } else { 13 });
}
