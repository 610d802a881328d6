//! Reference reading of the pattern string grammar (crates/localiser/docs), independent of the library's parser.
use crate::p_lexer::{is_syntax, is_white};

pub enum Node {
    Text(String),
    Number,
    Pattern(String, Option<String>, Vec<(String, String)>),
    /// name, delayed, parameters
    Command(String, bool, Vec<String>),
}
pub struct Ast {
    pub main: Vec<Node>,
    pub named: Vec<(String, Vec<Node>)>,
    pub grammar: bool,
}
#[derive(PartialEq, Clone, Copy)]
pub enum Bad {
    /// must be rejected
    Malformed,
    /// the documentation does not say
    Unspecified,
}
type R<T> = Result<T, Bad>;

struct P<'a> {
    s: &'a [char],
    i: usize,
    placeholders: Vec<String>,
    grammar: bool,
}
fn grammar(c: char) -> bool {
    (c == '{') | (c == '}') | (c == '`') | (c == '#')
}
fn ident(c: char) -> bool {
    !is_white(c as u32) & !is_syntax(c as u32)
}
impl<'a> P<'a> {
    fn peek(&self) -> Option<char> {
        self.s.get(self.i).copied()
    }
    /// the next character, which must exist
    fn need(&mut self) -> R<char> {
        let c = self.peek().ok_or(Bad::Malformed)?;
        self.i += 1;
        Ok(c)
    }
    fn white(&mut self) -> bool {
        let n = self.i;
        while let Some(c) = self.peek() {
            if !is_white(c as u32) {
                break;
            }
            self.i += 1;
        }
        self.i > n
    }
    fn ident(&mut self) -> R<String> {
        let n = self.i;
        while let Some(c) = self.peek() {
            if !ident(c) {
                break;
            }
            self.i += 1;
        }
        if self.i == n {
            return Err(Bad::Malformed);
        }
        Ok(self.s[n..self.i].iter().collect())
    }
    /// literal text up to and including its closing backtick; the opening one has been read
    fn literal(&mut self) -> R<String> {
        let mut t = String::new();
        loop {
            let c = self.need()?;
            if c == '`' {
                if self.peek() == Some('`') {
                    self.i += 1;
                } else {
                    return Ok(t);
                }
            }
            t.push(c);
        }
    }
    /// after `{`
    fn pattern(&mut self) -> R<Node> {
        let c = self.peek().ok_or(Bad::Malformed)?;
        if c == '`' {
            self.i += 1;
            let t = self.literal()?;
            if self.need()? != '}' {
                return Err(Bad::Malformed);
            }
            return Ok(Node::Text(t));
        }
        if c == '#' {
            self.i += 1;
            return self.command();
        }
        let name = self.ident()?;
        if self.placeholders.contains(&name) {
            return Err(Bad::Malformed);
        }
        self.placeholders.push(name.clone());
        self.white();
        if self.peek() == Some('}') {
            self.i += 1;
            return Ok(Node::Pattern(name, None, vec![]));
        }
        let keyword = self.ident()?;
        let mut selectors = vec![];
        loop {
            self.white();
            if self.peek() == Some('}') {
                self.i += 1;
                return Ok(Node::Pattern(name, Some(keyword), selectors));
            }
            let k = self.ident()?;
            if self.need()? != '#' {
                return Err(Bad::Malformed);
            }
            let v = self.ident()?;
            selectors.push((k, v));
        }
    }
    fn command(&mut self) -> R<Node> {
        if self.white() {
            return Err(Bad::Unspecified);
        }
        let name = self.ident()?;
        let mut delayed = false;
        let mut params = vec![];
        let mut unspecified = false;
        let mut spaced = self.white();
        loop {
            let c = self.need()?;
            if c == '}' {
                return if unspecified {
                    Err(Bad::Unspecified)
                } else {
                    Ok(Node::Command(name, delayed, params))
                };
            }
            if c == '#' {
                if delayed || !params.is_empty() {
                    return Err(Bad::Malformed);
                }
                delayed = true;
            } else {
                // a parameter without white space before it
                unspecified |= !spaced;
                if c == '`' {
                    params.push(self.literal()?);
                } else {
                    self.i -= 1;
                    params.push(self.ident()?);
                }
            }
            spaced = self.white();
        }
    }
    /// main string, or the string of a named string
    fn string(&mut self, sub: bool) -> R<Vec<Node>> {
        let mut out: Vec<Node> = vec![];
        let mut text = String::new();
        loop {
            let c = match self.peek() {
                Some(c) => c,
                None if sub => return Err(Bad::Malformed),
                None => break,
            };
            if !grammar(c) {
                text.push(c);
                self.i += 1;
                continue;
            }
            self.grammar = true;
            if c == '`' {
                self.i += 1;
                let n = self.need()?;
                if !grammar(n) {
                    return Err(Bad::Unspecified);
                }
                text.push(n);
                continue;
            }
            if !text.is_empty() {
                out.push(Node::Text(std::mem::take(&mut text)));
            }
            self.i += 1;
            if c == '{' {
                let n = self.pattern()?;
                out.push(n);
            } else if c == '}' {
                if sub {
                    break;
                }
                return Err(Bad::Malformed);
            } else {
                if !sub {
                    self.i -= 1;
                    break;
                }
                if let Some(Node::Number) = out.last() {
                    return Err(Bad::Unspecified);
                }
                out.push(Node::Number);
            }
        }
        if !text.is_empty() {
            out.push(Node::Text(text));
        }
        Ok(out)
    }
}

pub fn parse(s: &str) -> R<Ast> {
    let chars: Vec<char> = s.chars().collect();
    let mut p = P {
        s: &chars,
        i: 0,
        placeholders: vec![],
        grammar: false,
    };
    let main = p.string(false)?;
    let mut named: Vec<(String, Vec<Node>)> = vec![];
    let mut unspecified = false;
    if p.peek().is_some() {
        p.i += 1; // #
        p.white();
        if p.peek().is_none() {
            return Err(Bad::Unspecified);
        }
        while p.peek().is_some() {
            if p.need()? != '{' {
                return Err(Bad::Malformed);
            }
            let name = p.ident()?;
            if named.iter().any(|x| x.0 == name) {
                return Err(Bad::Malformed);
            }
            if !p.white() {
                return Err(Bad::Malformed);
            }
            let string = p.string(true)?;
            unspecified |= string.is_empty();
            named.push((name, string));
            p.white();
        }
    }
    if unspecified {
        return Err(Bad::Unspecified);
    }
    Ok(Ast {
        main,
        named,
        grammar: p.grammar,
    })
}

/// What the string of a branch may show for `#`.
pub type Number = Option<String>;

/// The values and the locale dependent parts of an evaluation.
pub trait World {
    /// text of a plain placeholder; `None`: no value, or not a text value
    fn text(&self, name: &str) -> Option<String>;
    /// plural or ordinal category and the formatted number
    fn category(&self, name: &str, ordinal: bool) -> Option<(&'static str, String)>;
    /// formatted decimal
    fn decimal(&self, name: &str, sign: &str, group: &str) -> Option<String>;
    /// formatted date, time or date and time
    fn date_time(&self, name: &str, date: &str, time: &str) -> Option<String>;
    /// result of a command
    fn command(&self, name: &str, delayed: bool, params: &[String]) -> Option<String>;
}

fn check_nodes(ast: &Ast, nodes: &[Node], before: usize) -> R<()> {
    for n in nodes {
        if let Node::Pattern(_, Some(k), sel) = n {
            if k == "plural" || k == "ordinal" || k == "select" {
                let mut other = false;
                for (s, b) in sel {
                    if k != "select" && !["zero", "one", "two", "few", "many", "other"].contains(&s.as_str()) {
                        return Err(Bad::Malformed);
                    }
                    match ast.named.iter().position(|x| x.0 == *b) {
                        None => return Err(Bad::Malformed),
                        // a branch that refers to itself or to a later one
                        Some(p) if p >= before => return Err(Bad::Unspecified),
                        _ => {}
                    }
                    other |= s == "other";
                }
                if !other {
                    return Err(if k == "select" { Bad::Unspecified } else { Bad::Malformed });
                }
            } else if k == "decimal" {
                for (s, v) in sel {
                    let ok = match s.as_str() {
                        "sign" => ["auto", "never", "always", "except_zero", "negative"].contains(&v.as_str()),
                        "group" => ["auto", "never", "always", "min2"].contains(&v.as_str()),
                        _ => false,
                    };
                    if !ok {
                        return Err(Bad::Malformed);
                    }
                }
            } else if k == "date_time" {
                for (s, v) in sel {
                    let ok = match s.as_str() {
                        "date" | "time" => ["full", "long", "medium", "short"].contains(&v.as_str()),
                        "calendar" | "hour" => return Err(Bad::Unspecified),
                        _ => false,
                    };
                    if !ok {
                        return Err(Bad::Malformed);
                    }
                }
            } else {
                return Err(Bad::Malformed);
            }
        }
    }
    Ok(())
}
/// Errors of the pattern itself, whatever the values.
pub fn well_formed(ast: &Ast) -> R<()> {
    let mut r = check_nodes(ast, &ast.main, ast.named.len());
    if r == Err(Bad::Malformed) {
        return r;
    }
    for (i, n) in ast.named.iter().enumerate() {
        match check_nodes(ast, &n.1, i) {
            Err(Bad::Malformed) => return Err(Bad::Malformed),
            Err(e) => r = Err(e),
            Ok(_) => {}
        }
    }
    r
}
fn option<'a>(sel: &'a [(String, String)], key: &str, default: &'a str) -> &'a str {
    for x in sel.iter().rev() {
        if crate::sym::fork((x.0 == key) as u64) == 1 {
            return &x.1;
        }
    }
    default
}
pub fn eval(ast: &Ast, nodes: &[Node], w: &dyn World, number: &Number) -> R<String> {
    let mut out = String::new();
    let bad = || Bad::Malformed;
    for n in nodes {
        match n {
            Node::Text(t) => out.push_str(t),
            Node::Number => match number {
                Some(s) => out.push_str(s),
                None => return Err(Bad::Unspecified),
            },
            Node::Pattern(name, None, _) => out.push_str(&w.text(name).ok_or_else(bad)?),
            Node::Pattern(name, Some(k), sel) => match k.as_str() {
                "decimal" => {
                    out.push_str(&w.decimal(name, option(sel, "sign", "auto"), option(sel, "group", "auto")).ok_or_else(bad)?)
                }
                "date_time" => {
                    out.push_str(&w.date_time(name, option(sel, "date", "medium"), option(sel, "time", "medium")).ok_or_else(bad)?)
                }
                k => {
                    let (key, num) = if k == "select" {
                        (w.text(name).ok_or_else(bad)?, None)
                    } else {
                        let (c, s) = w.category(name, k == "ordinal").ok_or_else(bad)?;
                        (c.to_string(), Some(s))
                    };
                    let branch = option(sel, &key, option(sel, "other", ""));
                    let b = ast.named.iter().find(|x| x.0 == branch).ok_or_else(bad)?;
                    out.push_str(&eval(ast, &b.1, w, &num)?);
                }
            },
            Node::Command(name, delayed, params) => out.push_str(&w.command(name, *delayed, params).ok_or_else(bad)?),
        }
    }
    Ok(out)
}
fn commands_ok(nodes: &[Node], w: &dyn World) -> bool {
    nodes.iter().all(|n| match n {
        Node::Command(name, false, params) => w.command(name, false, params).is_some(),
        _ => true,
    })
}
/// The text the pattern stands for.
pub fn format(s: &str, w: &dyn World) -> R<String> {
    let ast = parse(s)?;
    if !ast.grammar {
        return Ok(s.to_string());
    }
    well_formed(&ast)?;
    // an immediate command runs even in a branch that is not used
    if !ast.named.iter().all(|n| commands_ok(&n.1, w)) {
        return Err(Bad::Malformed);
    }
    eval(&ast, &ast.main, w, &None)
}
