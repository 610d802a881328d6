//! C01 lossless tokenisation with exact positions, C02 classification of tokens.
use crate::sym;
use i18n_lexer::*;
use std::rc::Rc;

pub fn icu() -> Rc<IcuDataProvider> {
    Rc::new(IcuDataProvider::try_new(DataProvider::Internal).unwrap_or_else(|_| panic!()))
}

/// Code points of every kind that matters here: each token class, each UTF-8 length, and the grapheme classes
/// (CR, LF, combining mark, ZWJ, regional indicator, Hangul L/V/T, emoji, spacing mark, prepend).
pub const REPS: [char; 40] = [
    'a', 'Z', '7', '_', ' ', '\t', '\n', '\r', '{', '}', '`', '#', '+', '"', '~', '\u{0}', '\u{85}', '\u{a0}', '\u{a1}',
    '\u{d7}', '\u{e9}', '\u{300}', '\u{5d0}', '\u{600}', '\u{903}', '\u{1100}', '\u{1161}', '\u{11a8}', '\u{200d}', '\u{200e}',
    '\u{2014}', '\u{2028}', '\u{2190}', '\u{3042}', '\u{fe0f}', '\u{fd3e}', '\u{1f1e6}', '\u{1f469}', '\u{1f3fd}', '\u{10ffff}',
];
/// A symbolic code point out of `REPS`.
pub fn rep() -> char {
    let i = sym::byte() as usize;
    sym::assume(i < REPS.len());
    let c = REPS[i];
    sym::fork(c.len_utf8() as u64);
    c
}

// Pattern_White_Space and Pattern_Syntax of UAX #31: immutable properties, so listed here.
const SYNTAX: [(u32, u32); 28] = [
    (0x21, 0x2f), (0x3a, 0x40), (0x5b, 0x5e), (0x60, 0x60), (0x7b, 0x7e), (0xa1, 0xa7), (0xa9, 0xa9), (0xab, 0xac), (0xae, 0xae),
    (0xb0, 0xb1), (0xb6, 0xb6), (0xbb, 0xbb), (0xbf, 0xbf), (0xd7, 0xd7), (0xf7, 0xf7), (0x2010, 0x2027), (0x2030, 0x203e),
    (0x2041, 0x2053), (0x2055, 0x205e), (0x2190, 0x245f), (0x2500, 0x2775), (0x2794, 0x2bff), (0x2e00, 0x2e7f), (0x3001, 0x3003),
    (0x3008, 0x3020), (0x3030, 0x3030), (0xfd3e, 0xfd3f), (0xfe45, 0xfe46),
];
pub fn is_white(c: u32) -> bool {
    (c >= 9 && c <= 13) | (c == 32) | (c == 0x85) | (c == 0x200e) | (c == 0x200f) | (c == 0x2028) | (c == 0x2029)
}
pub fn is_syntax(c: u32) -> bool {
    let mut r = false;
    for (a, b) in SYNTAX.iter() {
        r |= (c >= *a) & (c <= *b);
    }
    r
}
pub fn class(c: char, grammar: &[char]) -> TokenType {
    if is_white(c as u32) {
        TokenType::WhiteSpace
    } else if is_syntax(c as u32) {
        let mut g = false;
        for x in grammar {
            g |= *x == c;
        }
        if g {
            TokenType::Grammar
        } else {
            TokenType::Syntax
        }
    } else {
        TokenType::Identifier
    }
}
fn kind(t: TokenType) -> u8 {
    match t {
        TokenType::WhiteSpace => 0,
        TokenType::Identifier => 1,
        TokenType::Grammar => 2,
        TokenType::Syntax => 3,
    }
}
fn tokens(s: &str, g: &str, icu: &Rc<IcuDataProvider>) -> Vec<Token> {
    match LexerIterator::try_new(s, g, icu) {
        Ok(i) => i.collect(),
        Err(_) => {
            check!(false);
            vec![]
        }
    }
}

/// C01: the tokens are the string cut into consecutive non-empty pieces with right offsets.
fn lossless(s: &str, grammar: &str) {
    let icu = icu();
    let t = tokens(s, grammar, &icu);
    let mut byte = 0;
    let mut character = 0;
    let mut grapheme = 0;
    for x in t.iter() {
        let n = x.string.len();
        check!(n > 0);
        check!(byte + n <= s.len());
        check!(x.string.as_bytes() == &s.as_bytes()[byte..byte + n]);
        check!(x.start_byte == byte);
        check!(x.start_character == character);
        check!(x.start_grapheme == grapheme);
        check!(x.length_bytes == n);
        check!(x.length_characters == x.string.chars().count());
        check!(x.length_graphemes == icu.grapheme_segmenter().segment_str(&x.string).count() - 1);
        check!(x.end_byte == byte + n);
        byte += n;
        character += x.length_characters;
        grapheme += x.length_graphemes;
    }
    check!(byte == s.len());
    sym::cover(if t.len() > 1 { 1 } else { 2 });
    sym::observe(&[t.len() as u8, grapheme as u8, character as u8]);
}

/// C02: every token is a maximal run of one class, grammar characters stand alone.
fn classified(s: &str, grammar: &str) {
    let icu = icu();
    let g: Vec<char> = grammar.chars().collect();
    let t = tokens(s, grammar, &icu);
    let mut i = 0; // token
    let mut off = 0; // byte offset in the token
    let mut obs = vec![];
    for c in s.chars() {
        check!(i < t.len());
        let k = kind(class(c, &g));
        check!(kind(t[i].token_type) == k);
        off += c.len_utf8();
        check!(off <= t[i].string.len());
        let end = off == t[i].string.len();
        let next = s[t[i].start_byte + off..].chars().next().map(|c| kind(class(c, &g)));
        // a token ends where the class changes, and after every grammar character
        check!(end == (next != Some(k) || k == 2));
        if end {
            obs.push(k);
            sym::cover(1 + k as u32);
            i += 1;
            off = 0;
        }
    }
    check!(i == t.len());
    sym::observe(&obs);
}

fn uni(max: usize) -> String {
    let n = 1 + sym::pick(max as u64);
    let mut s = String::new();
    for _ in 0..n {
        s.push(rep());
    }
    s
}
pub fn h_lex_ascii() {
    lossless(&sym::ascii(1 + sym::pick(sym::param(0) as u64) as usize), "{}`#");
}
pub fn h_lex_uni() {
    lossless(&uni(sym::param(0)), "{}`#");
}
pub fn h_class_ascii() {
    classified(&sym::ascii(1 + sym::pick(sym::param(0) as u64) as usize), "{}`#");
}
pub fn h_class_uni() {
    classified(&uni(sym::param(0)), "{}`#");
}
/// Any grammar of one or two ASCII characters.
pub fn h_class_grammar() {
    let g = sym::ascii(1 + sym::pick(2) as usize);
    let s = sym::ascii(sym::param(0));
    let icu = icu();
    check!(LexerIterator::try_new("", &g, &icu).is_err());
    check!(LexerIterator::try_new(&s, "", &icu).is_err());
    classified(&s, &g);
}
/// Any single Unicode scalar value below `param 0` planes, split into blocks of 256.
pub fn h_class_any() {
    let plane = sym::pick(sym::param(0) as u64) as u32;
    let block = sym::fork(sym::byte() as u64) as u32;
    let u = plane << 16 | block << 8 | sym::byte() as u32;
    sym::assume((u < 0xd800) | (u > 0xdfff));
    let c = unsafe { char::from_u32_unchecked(u) };
    sym::fork(c.len_utf8() as u64);
    let mut s = String::new();
    s.push(c);
    classified(&s, "{}`#");
}
