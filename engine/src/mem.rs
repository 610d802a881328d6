//! Flat byte-addressed memory with copy-on-write pages and per-byte symbolic overlay.
use crate::expr::*;
use std::rc::Rc;

pub const PS: usize = 1024;
pub const PSH: u32 = 10;
pub const CH: usize = 64;
pub const STACK: u64 = 0x2000_0000_0000;
pub const HEAP: u64 = 0x4000_0000_0000;
pub const STACK_MAX: u64 = 256 << 20;

#[derive(Clone)]
pub struct Page {
    pub b: [u8; PS],
    pub s: Option<Box<[Id; PS]>>,
}
#[derive(Clone)]
pub struct Chunk {
    pub p: [Option<Rc<Page>>; CH],
}
#[derive(Clone)]
pub struct Region {
    pub base: u64,
    pub c: Rc<Vec<Option<Rc<Chunk>>>>,
}

const NONE: Option<Rc<Page>> = None;

impl Region {
    pub fn new(base: u64) -> Region {
        Region {
            base,
            c: Rc::new(vec![]),
        }
    }
    #[inline]
    fn get(&self, off: u64) -> Option<&Page> {
        let pi = (off >> PSH) as usize;
        match self.c.get(pi / CH) {
            Some(Some(c)) => c.p[pi % CH].as_deref(),
            _ => None,
        }
    }
    #[inline]
    fn get_mut(&mut self, off: u64) -> &mut Page {
        let pi = (off >> PSH) as usize;
        let v = Rc::make_mut(&mut self.c);
        if v.len() <= pi / CH {
            v.resize(pi / CH + 1, None);
        }
        let ch = v[pi / CH].get_or_insert_with(|| Rc::new(Chunk { p: [NONE; CH] }));
        let ch = Rc::make_mut(ch);
        let pg = ch.p[pi % CH].get_or_insert_with(|| {
            Rc::new(Page {
                b: [0; PS],
                s: None,
            })
        });
        Rc::make_mut(pg)
    }
}

#[derive(Clone)]
pub struct Mem {
    pub g: Region,
    pub s: Region,
    pub h: Region,
    pub g_end: u64,
    pub heap: u64,
}

impl Mem {
    #[inline]
    pub fn valid(&self, a: u64, n: u64) -> bool {
        (a >= HEAP && a + n <= self.heap)
            || (a >= STACK && a + n <= STACK + STACK_MAX)
            || (a >= self.g.base && a + n <= self.g_end)
    }
    #[inline]
    fn region(&self, a: u64) -> &Region {
        if a >= HEAP {
            &self.h
        } else if a >= STACK {
            &self.s
        } else {
            &self.g
        }
    }
    #[inline]
    fn region_mut(&mut self, a: u64) -> &mut Region {
        if a >= HEAP {
            &mut self.h
        } else if a >= STACK {
            &mut self.s
        } else {
            &mut self.g
        }
    }
    /// byte: (concrete, symbolic id or 0)
    #[inline]
    pub fn byte(&self, a: u64) -> (u8, Id) {
        let r = self.region(a);
        match r.get(a - r.base) {
            Some(p) => {
                let o = (a as usize) & (PS - 1);
                let s = match &p.s {
                    Some(s) => s[o],
                    None => 0,
                };
                (p.b[o], s)
            }
            None => (0, 0),
        }
    }
    #[inline]
    pub fn byte_val(&self, a: u64) -> Val {
        let (b, s) = self.byte(a);
        if s != 0 {
            Val::E(s)
        } else {
            Val::C(b as u64)
        }
    }
    #[inline]
    pub fn set_byte(&mut self, a: u64, v: &Val) {
        let r = self.region_mut(a);
        let p = r.get_mut(a - r.base);
        let o = (a as usize) & (PS - 1);
        match v {
            Val::C(c) => {
                p.b[o] = *c as u8;
                if let Some(s) = &mut p.s {
                    s[o] = 0;
                }
            }
            Val::E(e) => {
                let s = p.s.get_or_insert_with(|| Box::new([0; PS]));
                s[o] = *e;
            }
            _ => {
                p.b[o] = 0;
                if let Some(s) = &mut p.s {
                    s[o] = 0;
                }
            }
        }
    }
    /// Load n bytes (<=16) little endian; returned width is 8*n.
    pub fn load(&self, a: u64, n: usize) -> Val {
        let o = (a as usize) & (PS - 1);
        if o + n <= PS && n <= 8 {
            let r = self.region(a);
            match r.get(a - r.base) {
                None => return Val::C(0),
                Some(p) => {
                    let sym = match &p.s {
                        None => false,
                        Some(s) => s[o..o + n].iter().any(|x| *x != 0),
                    };
                    if !sym {
                        let mut buf = [0u8; 8];
                        buf[..n].copy_from_slice(&p.b[o..o + n]);
                        return Val::C(u64::from_le_bytes(buf));
                    }
                }
            }
        }
        let mut acc = self.byte_val(a);
        for i in 1..n {
            let b = self.byte_val(a + i as u64);
            acc = vconcat(&b, 8, &acc, (8 * i) as u8);
        }
        acc
    }
    pub fn store(&mut self, a: u64, n: usize, v: &Val) {
        match v {
            Val::C(c) => {
                let o = (a as usize) & (PS - 1);
                if o + n <= PS && n <= 8 {
                    let r = self.region_mut(a);
                    let p = r.get_mut(a - r.base);
                    p.b[o..o + n].copy_from_slice(&c.to_le_bytes()[..n]);
                    if let Some(s) = &mut p.s {
                        for x in &mut s[o..o + n] {
                            *x = 0;
                        }
                    }
                } else {
                    for i in 0..n {
                        let b = if i < 8 { (c >> (8 * i)) & 0xff } else { 0 };
                        self.set_byte(a + i as u64, &Val::C(b));
                    }
                }
            }
            Val::E(e) => {
                let w = (n * 8) as u8;
                for i in 0..n {
                    let b = vextract(&Val::E(*e), w, (8 * i) as u8, 8);
                    self.set_byte(a + i as u64, &b);
                }
            }
            _ => {
                // undefined: leave memory content
            }
        }
    }
    pub fn copy(&mut self, d: u64, s: u64, n: u64) {
        if n == 0 || d == s {
            return;
        }
        let mut buf: Vec<(u8, Id)> = Vec::with_capacity(n as usize);
        let mut i = 0;
        let mut anysym = false;
        while i < n {
            let a = s + i;
            let o = (a as usize) & (PS - 1);
            let m = (PS - o).min((n - i) as usize);
            let r = self.region(a);
            match r.get(a - r.base) {
                None => buf.extend(std::iter::repeat((0u8, 0)).take(m)),
                Some(p) => match &p.s {
                    None => buf.extend(p.b[o..o + m].iter().map(|x| (*x, 0))),
                    Some(sy) => {
                        for k in o..o + m {
                            anysym |= sy[k] != 0;
                            buf.push((p.b[k], sy[k]));
                        }
                    }
                },
            }
            i += m as u64;
        }
        let mut i = 0usize;
        while i < n as usize {
            let a = d + i as u64;
            let o = (a as usize) & (PS - 1);
            let m = (PS - o).min(n as usize - i);
            let r = self.region_mut(a);
            let p = r.get_mut(a - r.base);
            for k in 0..m {
                p.b[o + k] = buf[i + k].0;
            }
            if anysym {
                let sy = p.s.get_or_insert_with(|| Box::new([0; PS]));
                for k in 0..m {
                    sy[o + k] = buf[i + k].1;
                }
            } else if let Some(sy) = &mut p.s {
                for k in 0..m {
                    sy[o + k] = 0;
                }
            }
            i += m;
        }
    }
    pub fn set(&mut self, d: u64, v: &Val, n: u64) {
        for i in 0..n {
            self.set_byte(d + i, v);
        }
    }
    pub fn write_raw(&mut self, a: u64, b: &[u8]) {
        let mut i = 0;
        while i < b.len() {
            let x = a + i as u64;
            let o = (x as usize) & (PS - 1);
            let m = (PS - o).min(b.len() - i);
            let r = self.region_mut(x);
            let p = r.get_mut(x - r.base);
            p.b[o..o + m].copy_from_slice(&b[i..i + m]);
            i += m;
        }
    }
    /// Concrete C string / bytes for diagnostics.
    pub fn read_conc(&self, a: u64, n: usize) -> Vec<u8> {
        (0..n).map(|i| self.byte(a + i as u64).0).collect()
    }
    pub fn alloc(&mut self, n: u64, align: u64) -> u64 {
        let al = align.max(16);
        let mut a = self.heap + 16;
        a = (a + al - 1) / al * al;
        self.heap = a + ((n + 15) & !15) + 16;
        self.store(a - 8, 8, &Val::C(n));
        a
    }
    pub fn alloc_size(&self, a: u64) -> u64 {
        match self.load(a - 8, 8) {
            Val::C(c) => c,
            _ => 0,
        }
    }
    /// Differing pages between two memories of common origin: list of page base addresses.
    pub fn diff_pages(&self, o: &Mem) -> Vec<u64> {
        let mut out = vec![];
        for (x, y) in [(&self.g, &o.g), (&self.s, &o.s), (&self.h, &o.h)] {
            if Rc::ptr_eq(&x.c, &y.c) {
                continue;
            }
            let n = x.c.len().max(y.c.len());
            for i in 0..n {
                let (a, b) = (
                    x.c.get(i).and_then(|z| z.as_ref()),
                    y.c.get(i).and_then(|z| z.as_ref()),
                );
                match (a, b) {
                    (Some(p), Some(q)) if Rc::ptr_eq(p, q) => continue,
                    (None, None) => continue,
                    _ => {}
                }
                for k in 0..CH {
                    let (p, q) = (
                        a.and_then(|z| z.p[k].as_ref()),
                        b.and_then(|z| z.p[k].as_ref()),
                    );
                    match (p, q) {
                        (None, None) => {}
                        (Some(p), Some(q)) if Rc::ptr_eq(p, q) => {}
                        _ => out.push(x.base + (((i * CH + k) as u64) << PSH)),
                    }
                }
            }
        }
        out
    }
}
