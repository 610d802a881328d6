//! Parser for textual LLVM IR (functions are parsed lazily, on first call).
use crate::expr::*;
use std::collections::HashMap;
use std::rc::Rc;

pub type TyId = u32;
#[derive(Clone, Debug, PartialEq)]
pub enum TyK {
    Void,
    Int(u32),
    Ptr,
    Float,
    Double,
    Fp80,
    Array(u64, TyId),
    Vector(u32, TyId),
    Struct(Vec<TyId>, bool),
    Other,
}
#[derive(Clone, Debug)]
pub struct Ty {
    pub k: TyK,
    pub size: u64,
    pub align: u64,
    pub offs: Vec<u64>,
}

#[derive(Clone, Debug)]
pub enum Opd {
    R(u32),
    K(Val),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum FOp {
    Add,
    Sub,
    Mul,
    Div,
    Rem,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast {
    Trunc,
    ZExt,
    SExt,
    Bit,
    SiToFp,
    UiToFp,
    FpToSi,
    FpToUi,
    FpExt,
    FpTrunc,
}

#[derive(Clone, Debug)]
pub enum Inst {
    Alloca {
        dst: u32,
        size: u64,
        count: Opd,
        align: u64,
    },
    Load {
        dst: u32,
        ty: TyId,
        ptr: Opd,
    },
    Store {
        ty: TyId,
        val: Opd,
        ptr: Opd,
    },
    Gep {
        dst: u32,
        base: Opd,
        off: u64,
        idx: Vec<(Opd, u8, u64)>,
    },
    Bin {
        dst: u32,
        op: Op,
        w: u8,
        a: Opd,
        b: Opd,
        vec: bool,
    },
    /// pred: (op, swap, negate)
    ICmp {
        dst: u32,
        op: Op,
        swap: bool,
        neg: bool,
        w: u8,
        a: Opd,
        b: Opd,
        vec: bool,
    },
    FBin {
        dst: u32,
        op: FOp,
        ty: TyId,
        a: Opd,
        b: Opd,
    },
    FNeg {
        dst: u32,
        ty: TyId,
        a: Opd,
    },
    FCmp {
        dst: u32,
        pred: String,
        ty: TyId,
        a: Opd,
        b: Opd,
    },
    Cast {
        dst: u32,
        op: Cast,
        from: TyId,
        to: TyId,
        a: Opd,
    },
    Select {
        dst: u32,
        c: Opd,
        a: Opd,
        b: Opd,
        ty: TyId,
        vc: bool,
    },
    Freeze {
        dst: u32,
        a: Opd,
    },
    Call {
        dst: u32,
        callee: Opd,
        args: Vec<(Opd, TyId)>,
        ret: TyId,
        to: u32, // normal destination for invoke, u32::MAX otherwise
        tailname: u32,
    },
    Intr {
        dst: u32,
        name: Rc<str>,
        args: Vec<(Opd, TyId)>,
        ret: TyId,
    },
    Br(u32),
    CondBr {
        c: Opd,
        t: u32,
        f: u32,
    },
    Switch {
        w: u8,
        v: Opd,
        def: u32,
        cases: Vec<(u64, u32)>,
    },
    Ret(Option<Opd>),
    Unreachable,
    Extract {
        dst: u32,
        a: Opd,
        path: Vec<u32>,
        ty: TyId,
    },
    Insert {
        dst: u32,
        a: Opd,
        v: Opd,
        path: Vec<u32>,
        ty: TyId,
    },
    ExtElem {
        dst: u32,
        a: Opd,
        i: Opd,
        ty: TyId,
    },
    InsElem {
        dst: u32,
        a: Opd,
        v: Opd,
        i: Opd,
        ty: TyId,
    },
    Shuffle {
        dst: u32,
        a: Opd,
        b: Opd,
        mask: Vec<i32>,
        ty: TyId,
    },
    CmpXchg {
        dst: u32,
        ptr: Opd,
        cmp: Opd,
        new: Opd,
        ty: TyId,
    },
    Rmw {
        dst: u32,
        op: String,
        ptr: Opd,
        val: Opd,
        ty: TyId,
    },
    Unsupported(String),
}

pub struct Block {
    pub insts: Vec<Inst>,
    /// phi: dst, and incoming per predecessor block
    pub phis: Vec<(u32, Vec<(u32, Opd)>)>,
}

pub struct Func {
    pub name: Rc<str>,
    pub idx: u32,
    pub params: Vec<u32>,
    pub nregs: u32,
    pub blocks: Vec<Block>,
    pub vararg: bool,
}

pub struct FuncDecl {
    pub name: Rc<str>,
    pub off: Option<usize>,
    pub parsed: Option<Rc<Func>>,
}

pub const FN_BASE: u64 = 0x7000_0000_0000;
pub const GLOB_BASE: u64 = 0x1000_0000;

pub struct Global {
    pub name: String,
    pub ty: TyId,
    pub addr: u64,
    pub init: Option<usize>,
    pub align: u64,
    pub constant: bool,
}

pub struct Module {
    pub src: &'static [u8],
    pub tys: Vec<Ty>,
    tymap: HashMap<String, TyId>,
    named: HashMap<&'static str, TyId>,
    pub globals: Vec<Global>,
    pub gmap: HashMap<&'static str, u64>,
    pub funcs: Vec<FuncDecl>,
    pub fmap: HashMap<&'static str, u32>,
    aliases: Vec<(&'static str, &'static str)>,
    pub glob_end: u64,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Local(&'static str),
    Global(&'static str),
    Meta(&'static str),
    Attr,
    Word(&'static str),
    Int(&'static str),
    Float(&'static str),
    CStr(&'static [u8]),
    Str(&'static str),
    P(u8),
    Label(&'static str),
    Dots,
    Eof,
}

pub struct Lx {
    s: &'static [u8],
    p: usize,
    pub t: Tok,
    pub nl: bool,
    pub start: usize,
}

fn isname(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'$' || c == b'.' || c == b'_' || c == b'-'
}
fn st(s: &'static [u8]) -> &'static str {
    unsafe { std::str::from_utf8_unchecked(s) }
}

impl Lx {
    pub fn new(s: &'static [u8], p: usize) -> Lx {
        let mut l = Lx {
            s,
            p,
            t: Tok::Eof,
            nl: true,
            start: p,
        };
        l.next();
        l
    }
    pub fn next(&mut self) -> Tok {
        let old = std::mem::replace(&mut self.t, Tok::Eof);
        let s = self.s;
        let n = s.len();
        self.nl = false;
        loop {
            if self.p >= n {
                self.nl = true;
                self.t = Tok::Eof;
                self.start = n;
                return old;
            }
            let c = s[self.p];
            if c == b'\n' {
                self.nl = true;
                self.p += 1;
            } else if c == b' ' || c == b'\t' || c == b'\r' {
                self.p += 1;
            } else if c == b';' {
                while self.p < n && s[self.p] != b'\n' {
                    self.p += 1;
                }
            } else {
                break;
            }
        }
        self.start = self.p;
        let c = s[self.p];
        self.t = match c {
            b'%' | b'@' => {
                self.p += 1;
                let nm;
                if s[self.p] == b'"' {
                    let b = self.p + 1;
                    self.p = b;
                    while s[self.p] != b'"' {
                        self.p += 1;
                    }
                    nm = st(&s[b..self.p]);
                    self.p += 1;
                } else {
                    let b = self.p;
                    while self.p < n && isname(s[self.p]) {
                        self.p += 1;
                    }
                    nm = st(&s[b..self.p]);
                }
                if c == b'%' {
                    Tok::Local(nm)
                } else {
                    Tok::Global(nm)
                }
            }
            b'!' => {
                let b = self.p;
                self.p += 1;
                while self.p < n && isname(s[self.p]) {
                    self.p += 1;
                }
                Tok::Meta(st(&s[b..self.p]))
            }
            b'#' => {
                self.p += 1;
                while self.p < n && isname(s[self.p]) {
                    self.p += 1;
                }
                Tok::Attr
            }
            b'"' => {
                let b = self.p + 1;
                self.p = b;
                while s[self.p] != b'"' {
                    self.p += 1;
                }
                let r = &s[b..self.p];
                self.p += 1;
                if self.p < n && s[self.p] == b':' {
                    self.p += 1;
                    Tok::Label(st(r))
                } else {
                    Tok::Str(st(r))
                }
            }
            b'c' if s[self.p + 1] == b'"' => {
                let b = self.p + 2;
                self.p = b;
                while s[self.p] != b'"' {
                    self.p += 1;
                }
                let r = &s[b..self.p];
                self.p += 1;
                Tok::CStr(r)
            }
            b'.' if s[self.p + 1] == b'.' && s[self.p + 2] == b'.' => {
                self.p += 3;
                Tok::Dots
            }
            _ if (c == b'+' || c == b'-') && [&b"inf"[..], b"nan", b"qnan"].iter().any(|w| s[self.p + 1..].starts_with(w)) => {
                let b = self.p;
                self.p += 1;
                while self.p < n && isname(s[self.p]) {
                    self.p += 1;
                }
                Tok::Float(st(&s[b..self.p]))
            }
            _ if c == b'-' || c.is_ascii_digit() => {
                let b = self.p;
                self.p += 1;
                let mut fl = false;
                while self.p < n {
                    let d = s[self.p];
                    if d.is_ascii_digit() {
                        self.p += 1;
                    } else if d == b'.' || d == b'e' || d == b'E' {
                        fl = true;
                        self.p += 1;
                    } else if (d == b'+' || d == b'-') && fl {
                        self.p += 1;
                    } else if d == b'x' && self.p == b + 1 {
                        fl = true;
                        self.p += 1;
                        while self.p < n && s[self.p].is_ascii_alphanumeric() {
                            self.p += 1;
                        }
                        break;
                    } else if isname(d) {
                        // label such as 12.foo
                        self.p += 1;
                    } else {
                        break;
                    }
                }
                if self.p < n && s[self.p] == b':' {
                    let r = st(&s[b..self.p]);
                    self.p += 1;
                    Tok::Label(r)
                } else if fl {
                    Tok::Float(st(&s[b..self.p]))
                } else {
                    Tok::Int(st(&s[b..self.p]))
                }
            }
            _ if isname(c) => {
                let b = self.p;
                while self.p < n && isname(s[self.p]) {
                    self.p += 1;
                }
                let r = st(&s[b..self.p]);
                if self.p < n && s[self.p] == b':' {
                    self.p += 1;
                    Tok::Label(r)
                } else if r.starts_with("f0x") {
                    Tok::Float(r)
                } else {
                    Tok::Word(r)
                }
            }
            _ => {
                self.p += 1;
                Tok::P(c)
            }
        };
        old
    }
    pub fn is(&self, c: u8) -> bool {
        self.t == Tok::P(c)
    }
    pub fn word(&self, w: &str) -> bool {
        matches!(self.t, Tok::Word(x) if x == w)
    }
    pub fn eat(&mut self, c: u8) -> bool {
        if self.is(c) {
            self.next();
            true
        } else {
            false
        }
    }
    pub fn eatw(&mut self, w: &str) -> bool {
        if self.word(w) {
            self.next();
            true
        } else {
            false
        }
    }
    pub fn expect(&mut self, c: u8) {
        if !self.eat(c) {
            self.fail(&format!("expected '{}'", c as char));
        }
    }
    pub fn fail(&self, m: &str) -> ! {
        let e = (self.start + 120).min(self.s.len());
        let b = self.start.saturating_sub(200);
        panic!(
            "IR parse error: {} at {:?} near: {}",
            m,
            self.t,
            String::from_utf8_lossy(&self.s[b..e])
        );
    }
    pub fn skip_line(&mut self) {
        while !self.nl {
            self.next();
        }
    }
    /// skip a balanced (...) group, current token is '('
    fn skip_paren(&mut self) {
        let mut d = 0;
        loop {
            match self.t {
                Tok::P(b'(') | Tok::P(b'{') | Tok::P(b'[') => d += 1,
                Tok::P(b')') | Tok::P(b'}') | Tok::P(b']') => {
                    d -= 1;
                }
                Tok::Eof => self.fail("eof in paren"),
                _ => {}
            }
            self.next();
            if d == 0 {
                return;
            }
        }
    }
}

pub fn unescape(r: &[u8]) -> Vec<u8> {
    let mut o = Vec::with_capacity(r.len());
    let mut i = 0;
    let hx = |c: u8| (c as char).to_digit(16).unwrap() as u8;
    while i < r.len() {
        if r[i] == b'\\' {
            if r[i + 1] == b'\\' {
                o.push(b'\\');
                i += 2;
            } else {
                o.push(hx(r[i + 1]) * 16 + hx(r[i + 2]));
                i += 3;
            }
        } else {
            o.push(r[i]);
            i += 1;
        }
    }
    o
}

fn is_type_start(t: &Tok) -> bool {
    match t {
        Tok::Word(w) => {
            matches!(
                *w,
                "void" | "ptr" | "float" | "double" | "half" | "metadata" | "label" | "token"
                    | "x86_fp80" | "bfloat" | "fp128"
            ) || (w.starts_with('i')
                && w.len() > 1
                && w[1..].bytes().all(|c| c.is_ascii_digit()))
        }
        Tok::P(b'{') | Tok::P(b'[') | Tok::P(b'<') | Tok::Local(_) => true,
        _ => false,
    }
}

fn is_value_start(t: &Tok) -> bool {
    match t {
        Tok::Local(_) | Tok::Global(_) | Tok::Int(_) | Tok::Float(_) | Tok::CStr(_) => true,
        Tok::P(b'{') | Tok::P(b'[') | Tok::P(b'<') | Tok::Meta(_) => true,
        Tok::Word(w) => matches!(
            *w,
            "null"
                | "undef"
                | "poison"
                | "true"
                | "false"
                | "zeroinitializer"
                | "getelementptr"
                | "ptrtoint"
                | "inttoptr"
                | "bitcast"
                | "add"
                | "sub"
                | "trunc"
                | "xor"
                | "splat"
                | "none"
                | "asm"
                | "blockaddress"
                | "ptrtoaddr"
        ),
        _ => false,
    }
}

fn parse_int(s: &str) -> u128 {
    if let Some(r) = s.strip_prefix('-') {
        (r.parse::<u128>().unwrap()).wrapping_neg()
    } else {
        s.parse::<u128>().unwrap()
    }
}

fn parse_float(s: &str, ty: &TyK) -> u64 {
    if let Some(h) = s.strip_prefix("f0x") {
        return u64::from_str_radix(h, 16).unwrap_or(0);
    }
    let d = if let Some(h) = s.strip_prefix("0x") {
        if h.starts_with(|c: char| "KLMHR".contains(c)) {
            return 0;
        }
        f64::from_bits(u64::from_str_radix(h, 16).unwrap())
    } else if s.ends_with("nan") {
        f64::NAN
    } else {
        s.parse::<f64>().unwrap()
    };
    match ty {
        TyK::Float => (d as f32).to_bits() as u64,
        _ => d.to_bits(),
    }
}

impl Module {
    pub fn load(src: &'static [u8]) -> Module {
        let mut m = Module {
            src,
            tys: vec![],
            tymap: HashMap::new(),
            named: HashMap::new(),
            globals: vec![],
            gmap: HashMap::new(),
            funcs: vec![],
            fmap: HashMap::new(),
            aliases: vec![],
            glob_end: 0,
        };
        m.ty(TyK::Void);
        m.scan();
        m
    }
    pub fn ty(&mut self, k: TyK) -> TyId {
        let key = format!("{:?}", k);
        if let Some(i) = self.tymap.get(&key) {
            return *i;
        }
        let (size, align, offs) = self.layout(&k);
        let id = self.tys.len() as TyId;
        self.tys.push(Ty {
            k,
            size,
            align,
            offs,
        });
        self.tymap.insert(key, id);
        id
    }
    fn layout(&self, k: &TyK) -> (u64, u64, Vec<u64>) {
        match k {
            TyK::Void | TyK::Other => (0, 1, vec![]),
            TyK::Int(n) => {
                let b = (*n as u64 + 7) / 8;
                let a = match b {
                    0 | 1 => 1,
                    2 => 2,
                    3..=4 => 4,
                    5..=8 => 8,
                    _ => 16,
                };
                (((b + a - 1) / a) * a, a, vec![])
            }
            TyK::Ptr | TyK::Double => (8, 8, vec![]),
            TyK::Float => (4, 4, vec![]),
            TyK::Fp80 => (16, 16, vec![]),
            TyK::Array(n, t) => {
                let e = &self.tys[*t as usize];
                (n * e.size, e.align, vec![])
            }
            TyK::Vector(n, t) => {
                let e = &self.tys[*t as usize];
                let bits = match e.k {
                    TyK::Int(b) => b as u64,
                    _ => e.size * 8,
                } * *n as u64;
                let s = ((bits + 7) / 8).next_power_of_two();
                (s, s.min(64), vec![])
            }
            TyK::Struct(f, packed) => {
                let mut o = 0;
                let mut al = 1;
                let mut offs = vec![];
                for t in f {
                    let e = &self.tys[*t as usize];
                    if !packed {
                        o = (o + e.align - 1) / e.align * e.align;
                        al = al.max(e.align);
                    }
                    offs.push(o);
                    o += e.size;
                }
                if !packed {
                    o = (o + al - 1) / al * al;
                }
                (o, al, offs)
            }
        }
    }
    pub fn t(&self, i: TyId) -> &Ty {
        &self.tys[i as usize]
    }
    pub fn width(&self, i: TyId) -> u8 {
        match self.t(i).k {
            TyK::Int(n) => {
                if n > 128 {
                    panic!("integer wider than 128 bits");
                }
                n as u8
            }
            TyK::Ptr | TyK::Double => 64,
            TyK::Float => 32,
            _ => 0,
        }
    }
    /// For vectors: (lanes, element type)
    pub fn vec(&self, i: TyId) -> Option<(u32, TyId)> {
        match self.t(i).k {
            TyK::Vector(n, t) => Some((n, t)),
            _ => None,
        }
    }

    fn scan(&mut self) {
        let src = self.src;
        let mut p = 0usize;
        let n = src.len();
        // first collect named types (they come first in a module, but may be self-referential via order)
        let mut tydefs: Vec<(&'static str, usize)> = vec![];
        let mut lines: Vec<(u8, usize)> = vec![];
        while p < n {
            let e = memchr(b'\n', &src[p..]).map(|x| p + x).unwrap_or(n);
            let line = &src[p..e];
            if line.starts_with(b"define") {
                lines.push((b'd', p));
                // skip body: it ends with a line starting with '}'
                let mut q = e + 1;
                while q < n && src[q] != b'}' {
                    q = memchr(b'\n', &src[q..]).map(|x| q + x + 1).unwrap_or(n);
                }
                p = q;
                continue;
            } else if line.starts_with(b"declare") {
                lines.push((b'D', p));
            } else if line.starts_with(b"@") {
                lines.push((b'g', p));
            } else if line.starts_with(b"%") {
                let mut l = Lx::new(src, p);
                if let Tok::Local(nm) = l.next() {
                    l.expect(b'=');
                    if l.eatw("type") {
                        tydefs.push((nm, l.start));
                    }
                }
            }
            p = e + 1;
        }
        // resolve type definitions with dependency iteration
        let mut pending = tydefs;
        loop {
            let mut next = vec![];
            let cnt = pending.len();
            for (nm, off) in pending {
                let mut l = Lx::new(src, off);
                if l.word("opaque") {
                    let t = self.ty(TyK::Other);
                    self.named.insert(nm, t);
                    continue;
                }
                match self.try_type(&mut l) {
                    Some(t) => {
                        self.named.insert(nm, t);
                    }
                    None => next.push((nm, off)),
                }
            }
            if next.is_empty() {
                break;
            }
            if next.len() == cnt {
                panic!("unresolvable named types");
            }
            pending = next;
        }
        for (k, off) in lines {
            match k {
                b'd' | b'D' => {
                    let mut l = Lx::new(src, off);
                    // find the @name
                    loop {
                        match l.t {
                            Tok::Global(_) => break,
                            Tok::Eof => l.fail("function name"),
                            _ => {
                                l.next();
                            }
                        }
                    }
                    if let Tok::Global(nm) = l.t {
                        let idx = self.funcs.len() as u32;
                        if let Some(&i) = self.fmap.get(nm) {
                            if k == b'd' {
                                self.funcs[i as usize].off = Some(off);
                            }
                            continue;
                        }
                        self.funcs.push(FuncDecl {
                            name: Rc::from(nm),
                            off: if k == b'd' { Some(off) } else { None },
                            parsed: None,
                        });
                        self.fmap.insert(nm, idx);
                        self.gmap.insert(nm, FN_BASE + 16 * idx as u64);
                    }
                }
                _ => self.scan_global(off),
            }
        }
        for (a, b) in std::mem::take(&mut self.aliases) {
            let t = *self.gmap.get(b).unwrap_or_else(|| panic!("alias to unknown {}", b));
            self.gmap.insert(a, t);
            if let Some(i) = self.fmap.get(b) {
                let i = *i;
                self.fmap.insert(a, i);
            }
        }
        let mut a = GLOB_BASE;
        for g in self.globals.iter_mut() {
            let t = &self.tys[g.ty as usize];
            let al = g.align.max(t.align).max(16);
            a = (a + al - 1) / al * al;
            g.addr = a;
            a += t.size.max(if g.init.is_none() { 64 } else { 1 });
            a += 16;
        }
        for g in self.globals.iter() {
            let nm: &'static str = unsafe { std::mem::transmute::<&str, &'static str>(&g.name) };
            self.gmap.insert(nm, g.addr);
        }
        self.glob_end = a;
    }
    fn scan_global(&mut self, off: usize) {
        let mut l = Lx::new(self.src, off);
        let nm = match l.next() {
            Tok::Global(n) => n,
            _ => l.fail("global"),
        };
        l.expect(b'=');
        let mut external = false;
        let mut constant = false;
        loop {
            match l.t.clone() {
                Tok::Word("external") | Tok::Word("extern_weak") => {
                    external = true;
                    l.next();
                }
                Tok::Word("global") => {
                    l.next();
                    break;
                }
                Tok::Word("constant") => {
                    constant = true;
                    l.next();
                    break;
                }
                Tok::Word("alias") => {
                    // alias ty, ptr @target
                    l.next();
                    loop {
                        match l.t {
                            Tok::Global(t) => {
                                self.aliases.push((nm, t));
                                return;
                            }
                            _ if l.nl => l.fail("alias"),
                            _ => {
                                l.next();
                            }
                        }
                    }
                }
                Tok::P(b'(') => l.skip_paren(),
                Tok::Eof => l.fail("global"),
                _ => {
                    l.next();
                }
            }
        }
        let ty = self.ptype(&mut l);
        let init = if external { None } else { Some(l.start) };
        // find align on this line (after init) - cheap text search backwards from end of line
        let e = memchr(b'\n', &self.src[off..]).map(|x| off + x).unwrap_or(self.src.len());
        let tail = &self.src[e.saturating_sub(120).max(off)..e];
        let tails = String::from_utf8_lossy(tail);
        let align = tails
            .rfind(", align ")
            .and_then(|i| {
                let d: String = tails[i + 8..].chars().take_while(|c| c.is_ascii_digit()).collect();
                d.parse::<u64>().ok()
            })
            .unwrap_or(1);
        self.globals.push(Global {
            name: nm.to_string(),
            ty,
            addr: 0,
            init,
            align,
            constant,
        });
    }

    fn ptype(&mut self, l: &mut Lx) -> TyId {
        match self.try_type(l) {
            Some(t) => t,
            None => l.fail("type"),
        }
    }
    fn try_type(&mut self, l: &mut Lx) -> Option<TyId> {
        let t = match l.t.clone() {
            Tok::Word(w) => {
                let k = match w {
                    "void" => TyK::Void,
                    "ptr" => TyK::Ptr,
                    "float" => TyK::Float,
                    "double" => TyK::Double,
                    "x86_fp80" | "fp128" => TyK::Fp80,
                    "half" | "bfloat" => TyK::Int(16),
                    "metadata" | "label" | "token" => TyK::Other,
                    _ if w.starts_with('i') => TyK::Int(w[1..].parse().unwrap_or_else(|_| l.fail("type"))),
                    _ => l.fail("type"),
                };
                l.next();
                if l.word("addrspace") {
                    l.next();
                    l.skip_paren();
                }
                self.ty(k)
            }
            Tok::Local(nm) => {
                l.next();
                *self.named.get(nm)?
            }
            Tok::P(b'[') => {
                l.next();
                let n = match l.next() {
                    Tok::Int(s) => parse_int(s) as u64,
                    _ => l.fail("array len"),
                };
                if !l.eatw("x") {
                    l.fail("x");
                }
                let e = self.try_type(l)?;
                l.expect(b']');
                self.ty(TyK::Array(n, e))
            }
            Tok::P(b'<') => {
                l.next();
                if l.is(b'{') {
                    let f = self.fields(l)?;
                    l.expect(b'>');
                    self.ty(TyK::Struct(f, true))
                } else {
                    let n = match l.next() {
                        Tok::Int(s) => parse_int(s) as u32,
                        _ => l.fail("vec len"),
                    };
                    if !l.eatw("x") {
                        l.fail("x");
                    }
                    let e = self.try_type(l)?;
                    l.expect(b'>');
                    self.ty(TyK::Vector(n, e))
                }
            }
            Tok::P(b'{') => {
                let f = self.fields(l)?;
                self.ty(TyK::Struct(f, false))
            }
            _ => l.fail("type"),
        };
        Some(t)
    }
    fn fields(&mut self, l: &mut Lx) -> Option<Vec<TyId>> {
        l.expect(b'{');
        let mut f = vec![];
        while !l.eat(b'}') {
            f.push(self.try_type(l)?);
            l.eat(b',');
        }
        Some(f)
    }

    /// Write the initialiser at the lexer position into `out` (callback per byte run).
    pub fn write_const(&mut self, l: &mut Lx, ty: TyId, buf: &mut [u8]) {
        match l.t.clone() {
            Tok::Word("zeroinitializer") | Tok::Word("undef") | Tok::Word("poison") | Tok::Word("null") => {
                l.next();
                return;
            }
            Tok::CStr(s) => {
                let b = unescape(s);
                buf[..b.len()].copy_from_slice(&b);
                l.next();
                return;
            }
            _ => {}
        }
        match self.t(ty).k.clone() {
            TyK::Array(n, e) => {
                let es = self.t(e).size as usize;
                l.expect(b'[');
                for i in 0..n as usize {
                    let et = self.ptype(l);
                    debug_assert_eq!(et, e);
                    self.write_const(l, e, &mut buf[i * es..(i + 1) * es]);
                    l.eat(b',');
                }
                l.expect(b']');
            }
            TyK::Struct(f, packed) => {
                if packed {
                    l.expect(b'<');
                }
                l.expect(b'{');
                let offs = self.t(ty).offs.clone();
                for (i, t) in f.iter().enumerate() {
                    let _ = self.ptype(l);
                    let o = offs[i] as usize;
                    let s = self.t(*t).size as usize;
                    self.write_const(l, *t, &mut buf[o..o + s]);
                    l.eat(b',');
                }
                l.expect(b'}');
                if packed {
                    l.expect(b'>');
                }
            }
            TyK::Vector(..) => {
                let v = self.const_val(l, ty);
                let (n, e) = self.vec(ty).unwrap();
                let es = self.t(e).size as usize;
                if let Val::A(a) = v {
                    for i in 0..n as usize {
                        let k = as_const(&a[i]).unwrap();
                        buf[i * es..(i + 1) * es].copy_from_slice(&k.to_le_bytes()[..es]);
                    }
                }
            }
            _ => {
                let v = self.const_val(l, ty);
                let k = as_const(&v).unwrap();
                let s = self.t(ty).size as usize;
                let s2 = s.min(16);
                buf[..s2].copy_from_slice(&k.to_le_bytes()[..s2]);
            }
        }
    }

    pub fn zero_val(&self, ty: TyId) -> Val {
        match &self.t(ty).k {
            TyK::Array(n, e) => {
                let z = self.zero_val(*e);
                Val::A(vec![z; *n as usize].into())
            }
            TyK::Vector(n, e) => {
                let z = self.zero_val(*e);
                Val::A(vec![z; *n as usize].into())
            }
            TyK::Struct(f, _) => Val::A(f.iter().map(|t| self.zero_val(*t)).collect::<Vec<_>>().into()),
            TyK::Int(n) if *n > 64 => kval(*n as u8, 0),
            _ => Val::C(0),
        }
    }

    /// Constant operand of the given type.
    pub fn const_val(&mut self, l: &mut Lx, ty: TyId) -> Val {
        let k = self.t(ty).k.clone();
        match l.t.clone() {
            Tok::Word("true") => {
                l.next();
                Val::C(1)
            }
            Tok::Word("false") => {
                l.next();
                Val::C(0)
            }
            Tok::Word("null") | Tok::Word("zeroinitializer") | Tok::Word("undef") | Tok::Word("poison") | Tok::Word("none") => {
                l.next();
                self.zero_val(ty)
            }
            Tok::Int(s) => {
                l.next();
                match k {
                    TyK::Float | TyK::Double => Val::C(parse_float(s, &k)),
                    _ => {
                        let w = self.width(ty);
                        kval(w, parse_int(s) & mask(w))
                    }
                }
            }
            Tok::Float(s) => {
                l.next();
                Val::C(parse_float(s, &k))
            }
            Tok::Global(nm) => {
                l.next();
                match self.gmap.get(nm) {
                    Some(a) => Val::C(*a),
                    None => panic!("unknown global {}", nm),
                }
            }
            Tok::CStr(s) => {
                l.next();
                let b = unescape(s);
                Val::A(b.iter().map(|x| Val::C(*x as u64)).collect::<Vec<_>>().into())
            }
            Tok::Word("splat") => {
                l.next();
                l.expect(b'(');
                let t = self.ptype(l);
                let v = self.const_val(l, t);
                l.expect(b')');
                let n = match k {
                    TyK::Vector(n, _) => n,
                    _ => 1,
                };
                Val::A(vec![v; n as usize].into())
            }
            Tok::P(b'<') => {
                l.next();
                if l.is(b'{') {
                    let r = self.const_list(l, b'{', b'}');
                    l.expect(b'>');
                    return r;
                }
                let mut v = vec![];
                while !l.eat(b'>') {
                    let t = self.ptype(l);
                    v.push(self.const_val(l, t));
                    l.eat(b',');
                }
                Val::A(v.into())
            }
            Tok::P(b'{') => self.const_list(l, b'{', b'}'),
            Tok::P(b'[') => self.const_list(l, b'[', b']'),
            Tok::Word("getelementptr") => {
                l.next();
                while matches!(l.t, Tok::Word(_)) {
                    l.next();
                    if l.is(b'(') && false {
                        l.skip_paren();
                    }
                }
                l.expect(b'(');
                let bt = self.ptype(l);
                l.expect(b',');
                let pt = self.ptype(l);
                let base = as_const(&self.const_val(l, pt)).unwrap() as u64;
                let mut idx = vec![];
                while l.eat(b',') {
                    l.eatw("inrange");
                    let it = self.ptype(l);
                    let w = self.width(it);
                    let v = as_const(&self.const_val(l, it)).unwrap();
                    idx.push(sx128(v, w) as i64);
                }
                l.expect(b')');
                let mut off = 0i64;
                let mut cur = bt;
                for (i, x) in idx.iter().enumerate() {
                    if i == 0 {
                        off += x * self.t(cur).size as i64;
                    } else {
                        match self.t(cur).k.clone() {
                            TyK::Struct(f, _) => {
                                off += self.t(cur).offs[*x as usize] as i64;
                                cur = f[*x as usize];
                            }
                            TyK::Array(_, e) | TyK::Vector(_, e) => {
                                off += x * self.t(e).size as i64;
                                cur = e;
                            }
                            _ => l.fail("gep"),
                        }
                    }
                }
                Val::C(base.wrapping_add(off as u64))
            }
            Tok::Word(w @ ("ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "ptrtoaddr")) => {
                l.next();
                l.expect(b'(');
                let ft = self.ptype(l);
                let v = self.const_val(l, ft);
                if !l.eatw("to") {
                    l.fail("to");
                }
                let tt = self.ptype(l);
                l.expect(b')');
                if w == "bitcast" {
                    return v;
                }
                let c = as_const(&v).unwrap();
                let tw = self.width(tt);
                kval(tw, c & mask(tw))
            }
            Tok::Word(w @ ("add" | "sub" | "xor")) => {
                l.next();
                while matches!(l.t, Tok::Word(_)) {
                    l.next();
                }
                l.expect(b'(');
                let t = self.ptype(l);
                let a = self.const_val(l, t);
                l.expect(b',');
                let t2 = self.ptype(l);
                let b = self.const_val(l, t2);
                l.expect(b')');
                let op = match w {
                    "add" => Op::Add,
                    "sub" => Op::Sub,
                    _ => Op::Xor,
                };
                vbin(op, self.width(t), &a, &b)
            }
            _ => l.fail("constant"),
        }
    }
    fn const_list(&mut self, l: &mut Lx, o: u8, c: u8) -> Val {
        l.expect(o);
        let mut v = vec![];
        while !l.eat(c) {
            let t = self.ptype(l);
            v.push(self.const_val(l, t));
            l.eat(b',');
        }
        Val::A(v.into())
    }

    pub fn func(&mut self, idx: u32) -> Option<Rc<Func>> {
        if let Some(f) = &self.funcs[idx as usize].parsed {
            return Some(f.clone());
        }
        let off = self.funcs[idx as usize].off?;
        let f = Rc::new(FParser::parse(self, idx, off));
        self.funcs[idx as usize].parsed = Some(f.clone());
        Some(f)
    }
}

fn memchr(c: u8, s: &[u8]) -> Option<usize> {
    s.iter().position(|x| *x == c)
}

struct FParser<'m> {
    m: &'m mut Module,
    regs: HashMap<&'static str, u32>,
    blocks: HashMap<&'static str, u32>,
}

impl<'m> FParser<'m> {
    fn parse(m: &'m mut Module, idx: u32, off: usize) -> Func {
        let src = m.src;
        let mut l = Lx::new(src, off);
        let name = m.funcs[idx as usize].name.clone();
        let mut p = FParser {
            m,
            regs: HashMap::new(),
            blocks: HashMap::new(),
        };
        while !matches!(l.t, Tok::Global(_)) {
            l.next();
        }
        l.next();
        l.expect(b'(');
        let mut params = vec![];
        let mut vararg = false;
        let mut unnamed = 0;
        while !l.eat(b')') {
            if l.t == Tok::Dots {
                vararg = true;
                l.next();
                continue;
            }
            let _ = p.m.ptype(&mut l);
            let mut nm: Option<&'static str> = None;
            loop {
                match l.t {
                    Tok::P(b',') | Tok::P(b')') => break,
                    Tok::P(b'(') => l.skip_paren(),
                    Tok::Local(n) => {
                        nm = Some(n);
                        l.next();
                    }
                    _ => {
                        l.next();
                    }
                }
            }
            let r = p.regs.len() as u32;
            let nm = nm.unwrap_or_else(|| {
                let s: &'static str = Box::leak(format!("{}", unnamed).into_boxed_str());
                s
            });
            unnamed += 1;
            p.regs.insert(nm, r);
            params.push(r);
            l.eat(b',');
        }
        // skip to '{'
        while !l.is(b'{') {
            l.next();
        }
        l.next();
        // pre-scan block labels (labels start in column 0; instructions are indented)
        {
            let mut q = l.start;
            let mut bi = 0u32;
            let mut first = true;
            loop {
                let e = memchr(b'\n', &src[q..]).map(|x| q + x).unwrap_or(src.len());
                let line = &src[q..e];
                if line.starts_with(b"}") {
                    break;
                }
                if is_label_line(line) {
                    if !first {
                        bi += 1;
                    }
                    let mut ll = Lx::new(src, q);
                    if let Tok::Label(nm) = ll.next() {
                        p.blocks.insert(nm, bi);
                    }
                }
                first = false;
                q = e + 1;
            }
        }
        let mut blocks: Vec<Block> = vec![];
        let mut cur = Block {
            insts: vec![],
            phis: vec![],
        };
        let mut started = false;
        loop {
            match l.t.clone() {
                Tok::P(b'}') => break,
                Tok::Label(_) => {
                    if started {
                        blocks.push(cur);
                        cur = Block {
                            insts: vec![],
                            phis: vec![],
                        };
                    }
                    started = true;
                    l.next();
                }
                Tok::Attr => {
                    // #dbg_value(...) record
                    l.next();
                    l.skip_line();
                }
                _ => {
                    started = true;
                    p.inst(&mut l, &mut cur);
                }
            }
        }
        blocks.push(cur);
        Func {
            name,
            idx,
            params,
            nregs: p.regs.len() as u32,
            blocks,
            vararg,
        }
    }
    fn reg(&mut self, n: &'static str) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n).or_insert(k)
    }
    fn block(&self, n: &'static str) -> u32 {
        *self.blocks.get(n).unwrap_or(&0)
    }
    fn opd(&mut self, l: &mut Lx, ty: TyId) -> Opd {
        match l.t {
            Tok::Local(n) => {
                l.next();
                Opd::R(self.reg(n))
            }
            _ => Opd::K(self.m.const_val(l, ty)),
        }
    }
    fn typed(&mut self, l: &mut Lx) -> (TyId, Opd) {
        let t = self.m.ptype(l);
        let o = self.opd(l, t);
        (t, o)
    }
    fn label(&mut self, l: &mut Lx) -> u32 {
        if !l.eatw("label") {
            l.fail("label");
        }
        match l.next() {
            Tok::Local(n) => self.block(n),
            _ => l.fail("label name"),
        }
    }
    fn skip_flags(&mut self, l: &mut Lx) {
        while let Tok::Word(w) = l.t {
            if is_type_start(&l.t) {
                break;
            }
            let _ = w;
            l.next();
            if l.is(b'(') {
                l.skip_paren();
            }
        }
    }
    fn int_or_lane(&self, t: TyId) -> (u8, bool) {
        match self.m.vec(t) {
            Some((_, e)) => (self.m.width(e), true),
            None => (self.m.width(t), false),
        }
    }
    fn inst(&mut self, l: &mut Lx, b: &mut Block) {
        let mut dst = u32::MAX;
        if let Tok::Local(n) = l.t {
            l.next();
            l.expect(b'=');
            dst = self.reg(n);
        }
        let opw = match l.next() {
            Tok::Word(w) => w,
            t => l.fail(&format!("opcode {:?}", t)),
        };
        let ins = match opw {
            "alloca" => {
                l.eatw("inalloca");
                let t = self.m.ptype(l);
                let mut count = Opd::K(Val::C(1));
                let mut align = self.m.t(t).align;
                while !l.nl && l.eat(b',') {
                    if l.eatw("align") {
                        if let Tok::Int(s) = l.next() {
                            align = parse_int(s) as u64;
                        }
                    } else if is_type_start(&l.t) {
                        let (_, o) = self.typed(l);
                        count = o;
                    } else {
                        break;
                    }
                }
                Inst::Alloca {
                    dst,
                    size: self.m.t(t).size,
                    count,
                    align,
                }
            }
            "load" => {
                l.eatw("atomic");
                l.eatw("volatile");
                let t = self.m.ptype(l);
                l.expect(b',');
                let (_, p) = self.typed(l);
                Inst::Load { dst, ty: t, ptr: p }
            }
            "store" => {
                l.eatw("atomic");
                l.eatw("volatile");
                let (t, v) = self.typed(l);
                l.expect(b',');
                let (_, p) = self.typed(l);
                Inst::Store {
                    ty: t,
                    val: v,
                    ptr: p,
                }
            }
            "getelementptr" => {
                self.skip_flags(l);
                let bt = self.m.ptype(l);
                l.expect(b',');
                let (pt, base) = self.typed(l);
                let mut off = 0u64;
                let mut idx = vec![];
                let mut cur = bt;
                let mut first = true;
                let isvec = self.m.vec(pt).is_some();
                while !l.nl && l.eat(b',') {
                    if matches!(l.t, Tok::Meta(_)) {
                        break;
                    }
                    let (it, o) = self.typed(l);
                    if self.m.vec(it).is_some() || isvec {
                        b.insts.push(Inst::Unsupported("vector gep".into()));
                        l.skip_line();
                        return;
                    }
                    let w = self.m.width(it);
                    let scale;
                    if first {
                        scale = self.m.t(cur).size;
                        first = false;
                    } else {
                        match self.m.t(cur).k.clone() {
                            TyK::Struct(f, _) => {
                                let k = match &o {
                                    Opd::K(v) => as_const(v).unwrap() as usize,
                                    _ => l.fail("struct index"),
                                };
                                off = off.wrapping_add(self.m.t(cur).offs[k]);
                                cur = f[k];
                                continue;
                            }
                            TyK::Array(_, e) | TyK::Vector(_, e) => {
                                scale = self.m.t(e).size;
                                cur = e;
                            }
                            _ => l.fail("gep type"),
                        }
                    }
                    match &o {
                        Opd::K(v) => {
                            let k = sx128(as_const(v).unwrap(), w) as i64;
                            off = off.wrapping_add((k as u64).wrapping_mul(scale));
                        }
                        _ => idx.push((o, w, scale)),
                    }
                }
                Inst::Gep {
                    dst,
                    base,
                    off,
                    idx,
                }
            }
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor"
            | "shl" | "lshr" | "ashr" => {
                self.skip_flags(l);
                let (t, a) = self.typed(l);
                l.expect(b',');
                let bb = self.opd(l, t);
                let (w, vec) = self.int_or_lane(t);
                let op = match opw {
                    "add" => Op::Add,
                    "sub" => Op::Sub,
                    "mul" => Op::Mul,
                    "udiv" => Op::UDiv,
                    "sdiv" => Op::SDiv,
                    "urem" => Op::URem,
                    "srem" => Op::SRem,
                    "and" => Op::And,
                    "or" => Op::Or,
                    "xor" => Op::Xor,
                    "shl" => Op::Shl,
                    "lshr" => Op::LShr,
                    _ => Op::AShr,
                };
                Inst::Bin {
                    dst,
                    op,
                    w,
                    a,
                    b: bb,
                    vec,
                }
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                self.skip_flags(l);
                let (t, a) = self.typed(l);
                l.expect(b',');
                let bb = self.opd(l, t);
                let op = match opw {
                    "fadd" => FOp::Add,
                    "fsub" => FOp::Sub,
                    "fmul" => FOp::Mul,
                    "fdiv" => FOp::Div,
                    _ => FOp::Rem,
                };
                Inst::FBin {
                    dst,
                    op,
                    ty: t,
                    a,
                    b: bb,
                }
            }
            "fneg" => {
                self.skip_flags(l);
                let (t, a) = self.typed(l);
                Inst::FNeg { dst, ty: t, a }
            }
            "icmp" => {
                if l.word("samesign") {
                    l.next();
                }
                let pred = match l.next() {
                    Tok::Word(w) => w,
                    _ => l.fail("pred"),
                };
                let (t, a) = self.typed(l);
                l.expect(b',');
                let bb = self.opd(l, t);
                let (w, vec) = self.int_or_lane(t);
                let (op, swap, neg) = match pred {
                    "eq" => (Op::Eq, false, false),
                    "ne" => (Op::Eq, false, true),
                    "ult" => (Op::Ult, false, false),
                    "ule" => (Op::Ule, false, false),
                    "ugt" => (Op::Ult, true, false),
                    "uge" => (Op::Ule, true, false),
                    "slt" => (Op::Slt, false, false),
                    "sle" => (Op::Sle, false, false),
                    "sgt" => (Op::Slt, true, false),
                    "sge" => (Op::Sle, true, false),
                    _ => l.fail("icmp pred"),
                };
                Inst::ICmp {
                    dst,
                    op,
                    swap,
                    neg,
                    w,
                    a,
                    b: bb,
                    vec,
                }
            }
            "fcmp" => {
                let mut pred;
                loop {
                    pred = match l.next() {
                        Tok::Word(w) => w,
                        _ => l.fail("pred"),
                    };
                    if is_type_start(&l.t) {
                        break;
                    }
                }
                let (t, a) = self.typed(l);
                l.expect(b',');
                let bb = self.opd(l, t);
                Inst::FCmp {
                    dst,
                    pred: pred.to_string(),
                    ty: t,
                    a,
                    b: bb,
                }
            }
            "trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "inttoptr" | "sitofp"
            | "uitofp" | "fptosi" | "fptoui" | "fpext" | "fptrunc" | "ptrtoaddr" | "addrspacecast" => {
                self.skip_flags(l);
                let (f, a) = self.typed(l);
                if !l.eatw("to") {
                    l.fail("to");
                }
                let t = self.m.ptype(l);
                let (fw, tw) = (self.m.width(f), self.m.width(t));
                let op = match opw {
                    "trunc" => Cast::Trunc,
                    "zext" => Cast::ZExt,
                    "sext" => Cast::SExt,
                    "bitcast" | "addrspacecast" => Cast::Bit,
                    "ptrtoint" | "inttoptr" | "ptrtoaddr" => {
                        if fw > tw {
                            Cast::Trunc
                        } else if fw < tw {
                            Cast::ZExt
                        } else {
                            Cast::Bit
                        }
                    }
                    "sitofp" => Cast::SiToFp,
                    "uitofp" => Cast::UiToFp,
                    "fptosi" => Cast::FpToSi,
                    "fptoui" => Cast::FpToUi,
                    "fpext" => Cast::FpExt,
                    _ => Cast::FpTrunc,
                };
                Inst::Cast {
                    dst,
                    op,
                    from: f,
                    to: t,
                    a,
                }
            }
            "select" => {
                self.skip_flags(l);
                let (ct, c) = self.typed(l);
                l.expect(b',');
                let (t, a) = self.typed(l);
                l.expect(b',');
                let (_, bb) = self.typed(l);
                Inst::Select {
                    dst,
                    c,
                    a,
                    b: bb,
                    ty: t,
                    vc: self.m.vec(ct).is_some(),
                }
            }
            "freeze" => {
                let (_, a) = self.typed(l);
                Inst::Freeze { dst, a }
            }
            "phi" => {
                self.skip_flags(l);
                let t = self.m.ptype(l);
                let mut inc = vec![];
                loop {
                    l.expect(b'[');
                    let o = self.opd(l, t);
                    l.expect(b',');
                    let nm = match l.next() {
                        Tok::Local(n) => n,
                        _ => l.fail("phi label"),
                    };
                    l.expect(b']');
                    inc.push((self.block(nm), o));
                    if l.nl || !l.is(b',') {
                        break;
                    }
                    l.next();
                    if !l.is(b'[') {
                        break;
                    }
                }
                l.skip_line();
                b.phis.push((dst, inc));
                return;
            }
            "br" => {
                if l.word("label") {
                    Inst::Br(self.label(l))
                } else {
                    let (_, c) = self.typed(l);
                    l.expect(b',');
                    let t = self.label(l);
                    l.expect(b',');
                    let f = self.label(l);
                    Inst::CondBr { c, t, f }
                }
            }
            "switch" => {
                let (t, v) = self.typed(l);
                l.expect(b',');
                let def = self.label(l);
                l.expect(b'[');
                let w = self.m.width(t);
                let mut cases = vec![];
                while !l.eat(b']') {
                    let ct = self.m.ptype(l);
                    let k = as_const(&self.m.const_val(l, ct)).unwrap() as u64;
                    l.expect(b',');
                    let d = self.label(l);
                    cases.push((k, d));
                }
                Inst::Switch { w, v, def, cases }
            }
            "ret" => {
                if l.eatw("void") {
                    Inst::Ret(None)
                } else {
                    let (_, v) = self.typed(l);
                    Inst::Ret(Some(v))
                }
            }
            "unreachable" | "resume" => Inst::Unreachable,
            "extractvalue" => {
                let (t, a) = self.typed(l);
                let mut path = vec![];
                while !l.nl && l.eat(b',') {
                    match l.t {
                        Tok::Int(s) => {
                            path.push(parse_int(s) as u32);
                            l.next();
                        }
                        _ => break,
                    }
                }
                Inst::Extract {
                    dst,
                    a,
                    path,
                    ty: t,
                }
            }
            "insertvalue" => {
                let (t, a) = self.typed(l);
                l.expect(b',');
                let (_, v) = self.typed(l);
                let mut path = vec![];
                while !l.nl && l.eat(b',') {
                    match l.t {
                        Tok::Int(s) => {
                            path.push(parse_int(s) as u32);
                            l.next();
                        }
                        _ => break,
                    }
                }
                Inst::Insert {
                    dst,
                    a,
                    v,
                    path,
                    ty: t,
                }
            }
            "extractelement" => {
                let (t, a) = self.typed(l);
                l.expect(b',');
                let (_, i) = self.typed(l);
                Inst::ExtElem { dst, a, i, ty: t }
            }
            "insertelement" => {
                let (t, a) = self.typed(l);
                l.expect(b',');
                let (_, v) = self.typed(l);
                l.expect(b',');
                let (_, i) = self.typed(l);
                Inst::InsElem {
                    dst,
                    a,
                    v,
                    i,
                    ty: t,
                }
            }
            "shufflevector" => {
                let (t, a) = self.typed(l);
                l.expect(b',');
                let (_, bb) = self.typed(l);
                l.expect(b',');
                let mt = self.m.ptype(l);
                let (n, _) = self.m.vec(mt).unwrap();
                let mask = if matches!(l.t, Tok::P(b'<')) {
                    // may contain poison entries
                    l.next();
                    let mut v = vec![];
                    while !l.eat(b'>') {
                        let _ = self.m.ptype(l);
                        match l.next() {
                            Tok::Int(s) => v.push(parse_int(s) as i32),
                            _ => v.push(-1),
                        }
                        l.eat(b',');
                    }
                    v
                } else {
                    match self.m.const_val(l, mt) {
                        Val::A(x) => x.iter().map(|e| as_const(e).unwrap() as i32).collect(),
                        _ => vec![0; n as usize],
                    }
                };
                Inst::Shuffle {
                    dst,
                    a,
                    b: bb,
                    mask,
                    ty: t,
                }
            }
            "cmpxchg" => {
                l.eatw("weak");
                l.eatw("volatile");
                let (_, p) = self.typed(l);
                l.expect(b',');
                let (t, c) = self.typed(l);
                l.expect(b',');
                let (_, n) = self.typed(l);
                Inst::CmpXchg {
                    dst,
                    ptr: p,
                    cmp: c,
                    new: n,
                    ty: t,
                }
            }
            "atomicrmw" => {
                l.eatw("volatile");
                let op = match l.next() {
                    Tok::Word(w) => w.to_string(),
                    _ => l.fail("rmw"),
                };
                let (_, p) = self.typed(l);
                l.expect(b',');
                let (t, v) = self.typed(l);
                Inst::Rmw {
                    dst,
                    op,
                    ptr: p,
                    val: v,
                    ty: t,
                }
            }
            "fence" => {
                l.skip_line();
                return;
            }
            "landingpad" => {
                // skip clauses: they are on following lines starting with cleanup/catch/filter
                l.skip_line();
                while matches!(l.t, Tok::Word("cleanup") | Tok::Word("catch") | Tok::Word("filter")) {
                    l.next();
                    l.skip_line();
                }
                b.insts.push(Inst::Unsupported("landingpad".into()));
                return;
            }
            "tail" | "musttail" | "notail" => {
                if !l.eatw("call") {
                    l.fail("call");
                }
                match self.call(l, dst, false) {
                    Some(i) => i,
                    None => {
                        l.skip_line();
                        return;
                    }
                }
            }
            "call" => match self.call(l, dst, false) {
                Some(i) => i,
                None => {
                    l.skip_line();
                    return;
                }
            },
            "invoke" => {
                let i = self.call(l, dst, true);
                match i {
                    Some(i) => i,
                    None => return,
                }
            }
            "va_arg" => {
                l.skip_line();
                Inst::Unsupported("va_arg".into())
            }
            _ => l.fail(&format!("unknown opcode {}", opw)),
        };
        b.insts.push(ins);
        l.skip_line();
    }

    fn call(&mut self, l: &mut Lx, dst: u32, invoke: bool) -> Option<Inst> {
        // skip flags/cconv/ret attributes until a type
        loop {
            if is_type_start(&l.t) {
                break;
            }
            match l.t.clone() {
                Tok::Word("align") => {
                    l.next();
                    if l.is(b'(') {
                        l.skip_paren();
                    } else {
                        l.next();
                    }
                }
                Tok::Word("cc") => {
                    l.next();
                    l.next();
                }
                Tok::Word(_) | Tok::Str(_) | Tok::P(b'=') => {
                    l.next();
                    if l.is(b'(') {
                        l.skip_paren();
                    }
                }
                Tok::Attr => {
                    l.next();
                }
                _ => l.fail("call attrs"),
            }
        }
        let ret = self.m.ptype(l);
        if l.is(b'(') {
            l.skip_paren(); // function type
        }
        let mut name: Option<&'static str> = None;
        let mut asm = false;
        let callee = match l.t.clone() {
            Tok::Global(n) => {
                l.next();
                name = Some(n);
                match self.m.gmap.get(n) {
                    Some(a) => Opd::K(Val::C(*a)),
                    None => panic!("call to unknown {}", n),
                }
            }
            Tok::Local(n) => {
                l.next();
                Opd::R(self.reg(n))
            }
            Tok::Word("asm") => {
                asm = true;
                while !l.is(b'(') {
                    l.next();
                }
                Opd::K(Val::C(0))
            }
            _ => {
                let pt = self.m.ty(TyK::Ptr);
                Opd::K(self.m.const_val(l, pt))
            }
        };
        if let Some(n) = name {
            if n.starts_with("llvm.dbg")
                || n.starts_with("llvm.lifetime")
                || n.starts_with("llvm.experimental.noalias")
                || n.starts_with("llvm.assume")
                || n.starts_with("llvm.invariant")
                || n.starts_with("llvm.donothing")
                || n.starts_with("llvm.prefetch")
            {
                if !invoke {
                    return None;
                }
            }
        }
        l.expect(b'(');
        let mut args = vec![];
        while !l.eat(b')') {
            let t = self.m.ptype(l);
            // attributes
            loop {
                if is_value_start(&l.t) {
                    break;
                }
                match l.t.clone() {
                    Tok::Word("align") => {
                        l.next();
                        if l.is(b'(') {
                            l.skip_paren();
                        } else {
                            l.next();
                        }
                    }
                    Tok::Word(_) | Tok::Str(_) | Tok::P(b'=') => {
                        l.next();
                        if l.is(b'(') {
                            l.skip_paren();
                        }
                    }
                    _ => l.fail("arg attrs"),
                }
            }
            if let Tok::Meta(_) = l.t {
                l.next();
                if l.is(b'(') || l.is(b'{') {
                    l.skip_paren();
                }
                args.push((Opd::K(Val::C(0)), t));
            } else {
                let o = self.opd(l, t);
                args.push((o, t));
            }
            l.eat(b',');
        }
        let mut to = u32::MAX;
        if invoke {
            // skip attributes up to 'to'
            while !l.word("to") {
                if l.is(b'[') {
                    l.skip_paren();
                } else {
                    l.next();
                }
            }
            l.next();
            to = self.label(l);
            if !l.eatw("unwind") {
                l.fail("unwind");
            }
            let _ = self.label(l);
        }
        if asm {
            return Some(Inst::Intr {
                dst,
                name: Rc::from("asm"),
                args,
                ret,
            });
        }
        if let Some(n) = name {
            if n.starts_with("llvm.") {
                return Some(Inst::Intr {
                    dst,
                    name: Rc::from(n),
                    args,
                    ret,
                });
            }
        }
        Some(Inst::Call {
            dst,
            callee,
            args,
            ret,
            to,
            tailname: 0,
        })
    }
}

fn is_label_line(line: &[u8]) -> bool {
    if line.is_empty() {
        return false;
    }
    if line[0] == b'"' {
        return true;
    }
    let mut i = 0;
    while i < line.len() && isname(line[i]) {
        i += 1;
    }
    i > 0 && i < line.len() && line[i] == b':'
}
