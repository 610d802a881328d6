//! Hash-consed bit-vector expressions (widths 1..=128) with simplification.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};
use std::rc::Rc;

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u64(*x as u64)
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
    fn write_u128(&mut self, i: u128) {
        self.write_u64(i as u64);
        self.write_u64((i >> 64) as u64)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

pub type Id = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const,
    Var,
    Not,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    ZExt,
    SExt,
    Extract, // k = offset
    Concat,  // a = high, b = low
}

#[derive(Clone, Copy, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u8,
    pub a: Id,
    pub b: Id,
    pub c: Id,
    pub k: u128,
    pub sup: u128,
}

#[derive(Clone, Debug)]
pub enum Val {
    C(u64),
    E(Id),
    A(Rc<[Val]>),
    U,
}

pub struct VarInfo {
    pub name: String,
    pub w: u8,
}

pub struct Arena {
    pub nodes: Vec<Node>,
    pub map: FxMap<(Op, u8, Id, Id, Id, u128), Id>,
    pub vars: Vec<VarInfo>,
    pub var_ids: Vec<Id>,
    pub tt: FxMap<Id, Rc<[u64; 4]>>,
    pub doms: std::collections::HashMap<(usize, [u64; 4]), Id>,
    pub extracts: FxMap<(Id, u8, u8), Id>,
}

static mut ARENA: Option<Arena> = None;

#[allow(static_mut_refs)]
#[inline]
pub fn ar() -> &'static mut Arena {
    unsafe {
        if ARENA.is_none() {
            ARENA = Some(Arena {
                nodes: vec![Node {
                    op: Op::Const,
                    w: 1,
                    a: 0,
                    b: 0,
                    c: 0,
                    k: 0,
                    sup: 0,
                }],
                map: FxMap::default(),
                vars: vec![],
                var_ids: vec![],
                tt: FxMap::default(),
                doms: Default::default(),
                extracts: FxMap::default(),
            });
        }
        ARENA.as_mut().unwrap_unchecked()
    }
}

#[inline]
pub fn node(i: Id) -> Node {
    ar().nodes[i as usize]
}

#[inline]
pub fn mask(w: u8) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
#[inline]
pub fn mask64(w: u8) -> u64 {
    if w >= 64 {
        u64::MAX
    } else {
        (1u64 << w) - 1
    }
}
#[inline]
pub fn sx64(v: u64, w: u8) -> i64 {
    if w >= 64 {
        v as i64
    } else {
        ((v << (64 - w)) as i64) >> (64 - w)
    }
}
#[inline]
pub fn sx128(v: u128, w: u8) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

fn mk(op: Op, w: u8, a: Id, b: Id, c: Id, k: u128) -> Id {
    let key = (op, w, a, b, c, k);
    let r = ar();
    if let Some(i) = r.map.get(&key) {
        return *i;
    }
    let sup = match op {
        Op::Const => 0,
        Op::Var => 1u128 << k,
        Op::Ite => {
            r.nodes[a as usize].sup | r.nodes[b as usize].sup | r.nodes[c as usize].sup
        }
        Op::Not | Op::ZExt | Op::SExt | Op::Extract => r.nodes[a as usize].sup,
        _ => r.nodes[a as usize].sup | r.nodes[b as usize].sup,
    };
    let id = r.nodes.len() as Id;
    r.nodes.push(Node {
        op,
        w,
        a,
        b,
        c,
        k,
        sup,
    });
    r.map.insert(key, id);
    id
}

pub fn konst(w: u8, k: u128) -> Id {
    mk(Op::Const, w, 0, 0, 0, k & mask(w))
}

pub fn new_var(name: String, w: u8) -> Id {
    let r = ar();
    let n = r.vars.len();
    if n >= 128 {
        panic!("too many symbolic variables (limit 128)");
    }
    r.vars.push(VarInfo { name, w });
    let id = mk(Op::Var, w, 0, 0, 0, n as u128);
    ar().var_ids.push(id);
    id
}

#[inline]
pub fn id_of(w: u8, v: &Val) -> Id {
    match v {
        Val::C(c) => konst(w, *c as u128),
        Val::E(e) => *e,
        Val::U => konst(w, 0),
        Val::A(_) => panic!("aggregate where scalar expected"),
    }
}
#[inline]
pub fn val_of(i: Id) -> Val {
    let n = node(i);
    if n.op == Op::Const && n.w <= 64 {
        Val::C(n.k as u64)
    } else {
        Val::E(i)
    }
}
#[inline]
pub fn kval(w: u8, k: u128) -> Val {
    if w <= 64 {
        Val::C((k & mask(w)) as u64)
    } else {
        Val::E(konst(w, k))
    }
}
#[inline]
pub fn as_const(v: &Val) -> Option<u128> {
    match v {
        Val::C(c) => Some(*c as u128),
        Val::E(e) => {
            let n = node(*e);
            if n.op == Op::Const {
                Some(n.k)
            } else {
                None
            }
        }
        Val::U => Some(0),
        Val::A(_) => None,
    }
}
fn isk(i: Id) -> Option<u128> {
    let n = node(i);
    if n.op == Op::Const {
        Some(n.k)
    } else {
        None
    }
}

/// Concrete evaluation of an operator.
pub fn fold(op: Op, w: u8, aw: u8, a: u128, b: u128, c: u128, k: u128) -> u128 {
    let m = mask(w);
    let r = match op {
        Op::Const => k,
        Op::Var => unreachable!(),
        Op::Not => !a,
        Op::Add => a.wrapping_add(b),
        Op::Sub => a.wrapping_sub(b),
        Op::Mul => a.wrapping_mul(b),
        Op::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SDiv => {
            let (x, y) = (sx128(a, aw), sx128(b, aw));
            if y == 0 {
                if x < 0 {
                    1
                } else {
                    m
                }
            } else {
                x.wrapping_div(y) as u128
            }
        }
        Op::SRem => {
            let (x, y) = (sx128(a, aw), sx128(b, aw));
            if y == 0 {
                a
            } else {
                x.wrapping_rem(y) as u128
            }
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                a << b
            }
        }
        Op::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let x = sx128(a, aw);
            if b >= w as u128 {
                if x < 0 {
                    m
                } else {
                    0
                }
            } else {
                (x >> b) as u128
            }
        }
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Ule => (a <= b) as u128,
        Op::Slt => (sx128(a, aw) < sx128(b, aw)) as u128,
        Op::Sle => (sx128(a, aw) <= sx128(b, aw)) as u128,
        Op::Ite => {
            if a != 0 {
                b
            } else {
                c
            }
        }
        Op::ZExt => a,
        Op::SExt => sx128(a, aw) as u128,
        Op::Extract => {
            if k >= 128 {
                0
            } else {
                a >> k
            }
        }
        Op::Concat => unreachable!(),
    };
    r & m
}

fn is_cmp(op: Op) -> bool {
    matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle)
}

/// Is this an ITE tree with constant leaves (bounded depth)?
fn const_ite(i: Id, depth: u32) -> bool {
    let n = node(i);
    match n.op {
        Op::Const => true,
        Op::Ite => depth > 0 && const_ite(n.b, depth - 1) && const_ite(n.c, depth - 1),
        _ => false,
    }
}

pub fn not(a: Id) -> Id {
    let n = node(a);
    match n.op {
        Op::Const => konst(n.w, !n.k),
        Op::Not => n.a,
        // keep boolean negations of comparisons in comparison form
        Op::Ult if n.w == 1 => bin(Op::Ule, 1, n.b, n.a),
        Op::Ule if n.w == 1 => bin(Op::Ult, 1, n.b, n.a),
        Op::Slt if n.w == 1 => bin(Op::Sle, 1, n.b, n.a),
        Op::Sle if n.w == 1 => bin(Op::Slt, 1, n.b, n.a),
        Op::Ite if n.w == 1 && (isk(n.b).is_some() || isk(n.c).is_some()) => {
            let (x, y) = (not(n.b), not(n.c));
            ite(n.a, x, y)
        }
        _ => mk(Op::Not, n.w, a, 0, 0, 0),
    }
}

/// Unsigned upper bound (cheap).
pub fn umax(i: Id) -> u128 {
    let n = node(i);
    match n.op {
        Op::Const => n.k,
        Op::ZExt => umax(n.a),
        Op::And => umax(n.a).min(umax(n.b)),
        Op::Ite => umax1(n.b).max(umax1(n.c)),
        Op::LShr => {
            if let Some(k) = isk(n.b) {
                if k < 128 {
                    return umax(n.a) >> k;
                }
            }
            mask(n.w)
        }
        Op::URem => {
            if let Some(k) = isk(n.b) {
                if k > 0 {
                    return (k - 1).min(umax(n.a));
                }
            }
            mask(n.w)
        }
        Op::UDiv => {
            if let Some(k) = isk(n.b) {
                if k > 0 {
                    return umax(n.a) / k;
                }
            }
            mask(n.w)
        }
        Op::Add => {
            let (x, y) = (umax1(n.a), umax1(n.b));
            match x.checked_add(y) {
                Some(s) if s <= mask(n.w) => s,
                _ => mask(n.w),
            }
        }
        Op::Mul => {
            let (x, y) = (umax1(n.a), umax1(n.b));
            match x.checked_mul(y) {
                Some(s) if s <= mask(n.w) => s,
                _ => mask(n.w),
            }
        }
        Op::Concat => {
            let lw = node(n.b).w;
            if lw as u32 >= 128 {
                return mask(n.w);
            }
            (umax1(n.a) << lw) | mask(lw)
        }
        _ => mask(n.w),
    }
}
fn umax1(i: Id) -> u128 {
    let n = node(i);
    match n.op {
        Op::Const => n.k,
        Op::ZExt => mask(node(n.a).w),
        Op::And => match (isk(n.a), isk(n.b)) {
            (_, Some(k)) => k,
            (Some(k), _) => k,
            _ => mask(n.w),
        },
        Op::URem | Op::UDiv | Op::LShr => {
            if isk(n.b).is_some() {
                umax(i)
            } else {
                mask(n.w)
            }
        }
        Op::Concat | Op::Add | Op::Mul => umax(i),
        _ => mask(n.w),
    }
}

fn bits_for(m: u128) -> u8 {
    (128 - m.leading_zeros()).max(1) as u8
}

pub fn bin(op: Op, w: u8, a: Id, b: Id) -> Id {
    let (na, nb) = (node(a), node(b));
    let aw = na.w;
    if na.op == Op::Const && nb.op == Op::Const {
        return konst(w, fold(op, w, aw, na.k, nb.k, 0, 0));
    }
    // constants on the right for commutative ops
    let comm = matches!(
        op,
        Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq
    );
    if comm && (na.op == Op::Const || (nb.op != Op::Const && a > b)) {
        if nb.op != Op::Const {
            return bin(op, w, b, a);
        }
    }
    let m = mask(aw);
    // distribute over ITE with constant leaves when other operand is const
    if nb.op == Op::Const && na.op == Op::Ite && (const_ite(a, 8)) {
        let x = bin(op, w, na.b, b);
        let y = bin(op, w, na.c, b);
        return ite(na.a, x, y);
    }
    if na.op == Op::Const && nb.op == Op::Ite && (const_ite(b, 8)) {
        let x = bin(op, w, a, nb.b);
        let y = bin(op, w, a, nb.c);
        return ite(nb.a, x, y);
    }
    if let Some(k) = isk(b) {
        match op {
            Op::Add => {
                if k == 0 {
                    return a;
                }
                if na.op == Op::Add {
                    if let Some(k2) = isk(na.b) {
                        return bin(Op::Add, w, na.a, konst(w, k.wrapping_add(k2)));
                    }
                }
            }
            Op::Sub => {
                if k == 0 {
                    return a;
                }
                return bin(Op::Add, w, a, konst(w, (!k).wrapping_add(1)));
            }
            Op::Mul => {
                if k == 0 {
                    return b;
                }
                if k == 1 {
                    return a;
                }
                if k.is_power_of_two() {
                    return bin(Op::Shl, w, a, konst(w, k.trailing_zeros() as u128));
                }
            }
            Op::UDiv => {
                if k == 1 {
                    return a;
                }
                if k != 0 && k.is_power_of_two() {
                    return bin(Op::LShr, w, a, konst(w, k.trailing_zeros() as u128));
                }
                if k > umax(a) {
                    return konst(w, 0);
                }
                if k != 0 {
                    // narrow
                    let bw = bits_for(umax(a).max(k));
                    if bw < w {
                        let x = extract(a, 0, bw);
                        let q = bin(Op::UDiv, bw, x, konst(bw, k));
                        return zext(q, w);
                    }
                    if na.op == Op::UDiv {
                        if let Some(k2) = isk(na.b) {
                            if let Some(p) = k.checked_mul(k2) {
                                if p <= m && k2 != 0 {
                                    return bin(Op::UDiv, w, na.a, konst(w, p));
                                }
                            }
                        }
                    }
                }
            }
            Op::URem => {
                if k == 1 {
                    return konst(w, 0);
                }
                if k != 0 && k.is_power_of_two() {
                    return bin(Op::And, w, a, konst(w, k - 1));
                }
                if k > umax(a) {
                    return a;
                }
                if k != 0 {
                    let bw = bits_for(umax(a).max(k));
                    if bw < w {
                        let x = extract(a, 0, bw);
                        let q = bin(Op::URem, bw, x, konst(bw, k));
                        return zext(q, w);
                    }
                }
            }
            Op::SDiv | Op::SRem => {
                // non-negative numerator and positive divisor: unsigned
                if umax(a) < (1u128 << (w - 1)) && k < (1u128 << (w - 1)) && k != 0 {
                    return bin(if op == Op::SDiv { Op::UDiv } else { Op::URem }, w, a, b);
                }
            }
            Op::And => {
                if k == 0 {
                    return b;
                }
                if k == m {
                    return a;
                }
                if na.op == Op::And {
                    if let Some(k2) = isk(na.b) {
                        return bin(Op::And, w, na.a, konst(w, k & k2));
                    }
                }
                if umax1(a) & !k == 0 && (umax1(a) + 1).is_power_of_two() {
                    return a;
                }
                if na.op == Op::ZExt {
                    let iw = node(na.a).w;
                    let x = bin(Op::And, iw, na.a, konst(iw, k));
                    return zext(x, w);
                }
                // mask of low bits
                if (k + 1).is_power_of_two() {
                    let lw = bits_for(k);
                    if lw < w && (na.op == Op::Concat || na.op == Op::LShr) {
                        let x = extract(a, 0, lw);
                        return zext(x, w);
                    }
                }
                if na.op == Op::Concat {
                    // split mask over concat
                    let (hw, lw) = (node(na.a).w, node(na.b).w);
                    let h = bin(Op::And, hw, na.a, konst(hw, k >> lw));
                    let l = bin(Op::And, lw, na.b, konst(lw, k & mask(lw)));
                    return concat(h, l);
                }
            }
            Op::Or => {
                if k == 0 {
                    return a;
                }
                if k == m {
                    return b;
                }
                if na.op == Op::Or {
                    if let Some(k2) = isk(na.b) {
                        return bin(Op::Or, w, na.a, konst(w, k | k2));
                    }
                }
            }
            Op::Xor => {
                if k == 0 {
                    return a;
                }
                if k == m {
                    return not(a);
                }
                if na.op == Op::Xor {
                    if let Some(k2) = isk(na.b) {
                        return bin(Op::Xor, w, na.a, konst(w, k ^ k2));
                    }
                }
            }
            Op::Shl => {
                if k == 0 {
                    return a;
                }
                if k >= w as u128 {
                    return konst(w, 0);
                }
                let k = k as u8;
                let low = extract(a, 0, w - k);
                return concat(low, konst(k, 0));
            }
            Op::LShr => {
                if k == 0 {
                    return a;
                }
                if k >= w as u128 {
                    return konst(w, 0);
                }
                let k = k as u8;
                let hi = extract(a, k, w - k);
                return zext(hi, w);
            }
            Op::AShr => {
                if k == 0 {
                    return a;
                }
                let k = (k.min(w as u128 - 1)) as u8;
                let hi = extract(a, k, w - k);
                return sext(hi, w);
            }
            Op::Eq => {
                match na.op {
                    Op::ZExt => {
                        let iw = node(na.a).w;
                        if k > mask(iw) {
                            return konst(1, 0);
                        }
                        return bin(Op::Eq, 1, na.a, konst(iw, k));
                    }
                    Op::SExt => {
                        let iw = node(na.a).w;
                        if (sx128(k & mask(iw), iw) as u128) & m != k {
                            return konst(1, 0);
                        }
                        return bin(Op::Eq, 1, na.a, konst(iw, k));
                    }
                    Op::Add => {
                        if let Some(k2) = isk(na.b) {
                            return bin(Op::Eq, 1, na.a, konst(aw, k.wrapping_sub(k2)));
                        }
                    }
                    Op::Xor => {
                        if let Some(k2) = isk(na.b) {
                            return bin(Op::Eq, 1, na.a, konst(aw, k ^ k2));
                        }
                    }
                    Op::Not => return bin(Op::Eq, 1, na.a, konst(aw, !k)),
                    Op::Concat => {
                        let (hw, lw) = (node(na.a).w, node(na.b).w);
                        let h = bin(Op::Eq, 1, na.a, konst(hw, k >> lw));
                        if isk(h) == Some(0) {
                            return h;
                        }
                        let l = bin(Op::Eq, 1, na.b, konst(lw, k & mask(lw)));
                        return bin(Op::And, 1, h, l);
                    }
                    Op::Ite => {
                        // push when at least one leaf is constant
                        if isk(na.b).is_some() || isk(na.c).is_some() {
                            let x = bin(Op::Eq, 1, na.b, b);
                            let y = bin(Op::Eq, 1, na.c, b);
                            return ite(na.a, x, y);
                        }
                    }
                    _ => {}
                }
                if aw == 1 {
                    return if k == 1 { a } else { not(a) };
                }
                if k > umax(a) {
                    return konst(1, 0);
                }
            }
            Op::Ult => {
                if k == 0 {
                    return konst(1, 0);
                }
                if k == 1 {
                    return bin(Op::Eq, 1, a, konst(aw, 0));
                }
                if k == m {
                    return not(bin(Op::Eq, 1, a, b));
                }
                if umax(a) < k {
                    return konst(1, 1);
                }
                if na.op == Op::ZExt {
                    let iw = node(na.a).w;
                    return bin(Op::Ult, 1, na.a, konst(iw, k));
                }
                if na.op == Op::Ite && (isk(na.b).is_some() || isk(na.c).is_some()) {
                    let x = bin(op, 1, na.b, b);
                    let y = bin(op, 1, na.c, b);
                    return ite(na.a, x, y);
                }
            }
            Op::Ule => {
                if k == m {
                    return konst(1, 1);
                }
                return bin(Op::Ult, 1, a, konst(aw, k + 1));
            }
            Op::Slt | Op::Sle => {
                let half = 1u128 << (aw - 1);
                if umax(a) < half {
                    if k < half {
                        return bin(if op == Op::Slt { Op::Ult } else { Op::Ule }, 1, a, b);
                    }
                    return konst(1, 0);
                }
                if na.op == Op::SExt {
                    let iw = node(na.a).w;
                    let lo = sx128(1u128 << (iw - 1), iw);
                    let hi = -(lo + 1);
                    let sk = sx128(k, aw);
                    if sk >= lo && sk <= hi {
                        return bin(op, 1, na.a, konst(iw, k));
                    }
                }
                if na.op == Op::Ite && (isk(na.b).is_some() || isk(na.c).is_some()) {
                    let x = bin(op, 1, na.b, b);
                    let y = bin(op, 1, na.c, b);
                    return ite(na.a, x, y);
                }
            }
            _ => {}
        }
    }
    if let Some(k) = isk(a) {
        match op {
            Op::Ult => {
                // k < b
                if k == m {
                    return konst(1, 0);
                }
                if k == 0 {
                    return not(bin(Op::Eq, 1, b, konst(aw, 0)));
                }
                if nb.op == Op::ZExt {
                    let iw = node(nb.a).w;
                    if k >= mask(iw) {
                        return konst(1, 0);
                    }
                    return bin(Op::Ult, 1, konst(iw, k), nb.a);
                }
                if umax(b) <= k {
                    return konst(1, 0);
                }
                if nb.op == Op::Ite && (isk(nb.b).is_some() || isk(nb.c).is_some()) {
                    let x = bin(op, 1, a, nb.b);
                    let y = bin(op, 1, a, nb.c);
                    return ite(nb.a, x, y);
                }
            }
            Op::Ule => {
                if k == 0 {
                    return konst(1, 1);
                }
                return bin(Op::Ult, 1, konst(aw, k - 1), b);
            }
            Op::Slt | Op::Sle => {
                let half = 1u128 << (aw - 1);
                if umax(b) < half {
                    if k < half {
                        return bin(if op == Op::Slt { Op::Ult } else { Op::Ule }, 1, a, b);
                    }
                    return konst(1, 1);
                }
                if nb.op == Op::SExt {
                    let iw = node(nb.a).w;
                    let lo = sx128(1u128 << (iw - 1), iw);
                    let hi = -(lo + 1);
                    let sk = sx128(k, aw);
                    if sk >= lo && sk <= hi {
                        return bin(op, 1, konst(iw, k), nb.a);
                    }
                }
            }
            Op::Shl | Op::LShr | Op::AShr if k == 0 => return konst(w, 0),
            Op::UDiv | Op::URem if k == 0 && false => return konst(w, 0),
            _ => {}
        }
    }
    if a == b {
        match op {
            Op::Sub | Op::Xor => return konst(w, 0),
            Op::And | Op::Or => return a,
            Op::Eq | Op::Ule | Op::Sle => return konst(1, 1),
            Op::Ult | Op::Slt => return konst(1, 0),
            _ => {}
        }
    }
    match op {
        Op::And | Op::Or if w == 1 => {
            // complement
            if not(a) == b {
                return konst(1, if op == Op::And { 0 } else { 1 });
            }
            // absorption: a & (a & x) etc.
            if nb.op == op && (nb.a == a || nb.b == a) {
                return b;
            }
            if na.op == op && (na.a == b || na.b == b) {
                return a;
            }
        }
        Op::Or | Op::Xor | Op::Add => {
            // zext(x) | concat(y, 0..) -> concat(y, x)
            if let Some(r) = disjoint_or(w, a, b) {
                return r;
            }
            if let Some(r) = disjoint_or(w, b, a) {
                return r;
            }
            if op == Op::Or && na.op == Op::Concat && nb.op == Op::Concat {
                let (l1, l2) = (node(na.b).w, node(nb.b).w);
                if l1 == l2 {
                    let h = bin(Op::Or, w - l1, na.a, nb.a);
                    let l = bin(Op::Or, l1, na.b, nb.b);
                    return concat(h, l);
                }
            }
        }
        Op::Eq => {
            if na.op == Op::ZExt && nb.op == Op::ZExt {
                let (x, y) = (node(na.a).w, node(nb.a).w);
                if x == y {
                    return bin(Op::Eq, 1, na.a, nb.a);
                }
                if x < y {
                    let e = zext(na.a, y);
                    return bin(Op::Eq, 1, e, nb.a);
                }
                let e = zext(nb.a, x);
                return bin(Op::Eq, 1, na.a, e);
            }
            if na.op == Op::Concat && nb.op == Op::Concat && node(na.b).w == node(nb.b).w {
                let h = bin(Op::Eq, 1, na.a, nb.a);
                let l = bin(Op::Eq, 1, na.b, nb.b);
                return bin(Op::And, 1, h, l);
            }
        }
        Op::Ult | Op::Ule => {
            if na.op == Op::ZExt && nb.op == Op::ZExt {
                let (x, y) = (node(na.a).w, node(nb.a).w);
                let t = x.max(y);
                if t < aw {
                    let e = zext(na.a, t);
                    let f = zext(nb.a, t);
                    return bin(op, 1, e, f);
                }
            }
        }
        Op::Slt | Op::Sle => {
            let half = 1u128 << (aw - 1);
            if umax(a) < half && umax(b) < half {
                return bin(if op == Op::Slt { Op::Ult } else { Op::Ule }, 1, a, b);
            }
        }
        _ => {}
    }
    // narrow arithmetic on zero-extended operands
    if matches!(op, Op::Add | Op::Mul | Op::UDiv | Op::URem) && w > 16 {
        let (ma, mb) = (umax(a), umax(b));
        let need = match op {
            Op::Add => ma.checked_add(mb),
            Op::Mul => ma.checked_mul(mb),
            _ => Some(ma.max(mb)),
        };
        if let Some(n) = need {
            let bw = bits_for(n);
            // only when clearly narrower, to avoid churn
            if bw < w && bw as u32 * 2 <= w as u32 {
                let x = extract(a, 0, bw);
                let y = extract(b, 0, bw);
                let r = mk_bin_raw(op, bw, x, y);
                return zext(r, w);
            }
        }
    }
    mk_bin_raw(op, w, a, b)
}

fn mk_bin_raw(op: Op, w: u8, a: Id, b: Id) -> Id {
    if isk(a).is_some() && isk(b).is_some() {
        return bin(op, w, a, b);
    }
    let comm = matches!(
        op,
        Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq
    );
    let (a, b) = if comm && isk(b).is_none() && (isk(a).is_some() || a > b) {
        (b, a)
    } else {
        (a, b)
    };
    mk(op, w, a, b, 0, 0)
}

/// `lo` fits below the zero tail of `hi`?
fn disjoint_or(_w: u8, lo: Id, hi: Id) -> Option<Id> {
    let nl = node(lo);
    let nh = node(hi);
    if nh.op == Op::Concat && nl.op == Op::ZExt {
        let tail = node(nh.b);
        if tail.op == Op::Const && tail.k == 0 {
            let lw = node(nl.a).w;
            if lw <= tail.w {
                let low = zext(nl.a, tail.w);
                return Some(concat(nh.a, low));
            }
        }
    }
    // zext(concat(x,0)) | zext(y)
    if nh.op == Op::ZExt && nl.op == Op::ZExt {
        let inner = node(nh.a);
        if inner.op == Op::Concat {
            let tail = node(inner.b);
            let lw = node(nl.a).w;
            if tail.op == Op::Const && tail.k == 0 && lw <= tail.w {
                let low = zext(nl.a, tail.w);
                let c = concat(inner.a, low);
                return Some(zext(c, nh.w));
            }
        }
    }
    None
}

pub fn zext(a: Id, w: u8) -> Id {
    let n = node(a);
    if n.w == w {
        return a;
    }
    debug_assert!(n.w < w);
    match n.op {
        Op::Const => konst(w, n.k),
        Op::ZExt => zext(n.a, w),
        Op::Ite if const_ite(a, 8) => {
            let x = zext(n.b, w);
            let y = zext(n.c, w);
            ite(n.a, x, y)
        }
        Op::Concat if isk(n.a) == Some(0) => zext(n.b, w),
        _ => mk(Op::ZExt, w, a, 0, 0, 0),
    }
}
pub fn sext(a: Id, w: u8) -> Id {
    let n = node(a);
    if n.w == w {
        return a;
    }
    match n.op {
        Op::Const => konst(w, sx128(n.k, n.w) as u128),
        Op::SExt => sext(n.a, w),
        Op::ZExt => zext(a, w),
        Op::Ite if const_ite(a, 8) => {
            let x = sext(n.b, w);
            let y = sext(n.c, w);
            ite(n.a, x, y)
        }
        _ => {
            if umax(a) < (1u128 << (n.w - 1)) {
                return zext(a, w);
            }
            mk(Op::SExt, w, a, 0, 0, 0)
        }
    }
}
pub fn extract(a: Id, off: u8, w: u8) -> Id {
    let n = node(a);
    if off == 0 && w == n.w {
        return a;
    }
    debug_assert!(off as u32 + w as u32 <= n.w as u32);
    if n.op == Op::Const {
        return konst(w, n.k >> off);
    }
    if let Some(r) = ar().extracts.get(&(a, off, w)) {
        return *r;
    }
    let r = extract_new(a, n, off, w);
    ar().extracts.insert((a, off, w), r);
    r
}
fn extract_new(a: Id, n: Node, off: u8, w: u8) -> Id {
    match n.op {
        Op::Extract => extract(n.a, off + n.k as u8, w),
        Op::Concat => {
            let lw = node(n.b).w;
            if off >= lw {
                extract(n.a, off - lw, w)
            } else if off + w <= lw {
                extract(n.b, off, w)
            } else {
                let l = extract(n.b, off, lw - off);
                let h = extract(n.a, 0, w - (lw - off));
                concat(h, l)
            }
        }
        Op::ZExt => {
            let iw = node(n.a).w;
            if off >= iw {
                konst(w, 0)
            } else if off + w <= iw {
                extract(n.a, off, w)
            } else {
                let x = extract(n.a, off, iw - off);
                zext(x, w)
            }
        }
        Op::SExt => {
            let iw = node(n.a).w;
            if off + w <= iw {
                extract(n.a, off, w)
            } else if off < iw {
                let x = extract(n.a, off, iw - off);
                sext(x, w)
            } else {
                let s = extract(n.a, iw - 1, 1);
                sext(s, w)
            }
        }
        Op::And | Op::Or | Op::Xor => {
            // bitwise: push down (always valid)
            let x = extract(n.a, off, w);
            let y = extract(n.b, off, w);
            bin(n.op, w, x, y)
        }
        Op::Not => {
            let x = extract(n.a, off, w);
            not(x)
        }
        Op::Ite => {
            let x = extract(n.b, off, w);
            let y = extract(n.c, off, w);
            ite(n.a, x, y)
        }
        Op::Add | Op::Mul | Op::Sub if off == 0 => {
            let x = extract(n.a, 0, w);
            let y = extract(n.b, 0, w);
            bin(n.op, w, x, y)
        }
        _ => mk(Op::Extract, w, a, 0, 0, off as u128),
    }
}
pub fn concat(h: Id, l: Id) -> Id {
    let (nh, nl) = (node(h), node(l));
    let w = nh.w + nl.w;
    if nh.op == Op::Const && nl.op == Op::Const {
        return konst(w, (nh.k << nl.w) | nl.k);
    }
    if nh.op == Op::Const && nh.k == 0 {
        return zext(l, w);
    }
    if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a && nh.k == nl.k + nl.w as u128 {
        return extract(nh.a, nl.k as u8, w);
    }
    // extract(x, k..) ++ x[0..k] where low is non-Extract (e.g. ZExt'd)
    if nh.op == Op::Extract && nl.op == Op::Concat {
        let t = node(nl.a);
        if t.op == Op::Extract && t.a == nh.a && nh.k == t.k + t.w as u128 {
            let x = extract(nh.a, t.k as u8, nh.w + t.w);
            return concat(x, nl.b);
        }
    }
    if nh.op == Op::ZExt {
        // concat(zext(x), l) = zext(concat(x,l))
        let x = concat(nh.a, l);
        return zext(x, w);
    }
    if nl.op == Op::Concat && nh.op == Op::Const && isk(nl.a).is_some() {
        let k = concat(h, nl.a);
        return concat(k, nl.b);
    }
    if nh.op == Op::Concat {
        // right-assoc normal form: concat(concat(a,b),c) = concat(a, concat(b,c))
        let x = concat(nh.b, l);
        return concat(nh.a, x);
    }
    if nh.op == Op::Ite && nl.op == Op::Ite && nh.a == nl.a {
        let x = concat(nh.b, nl.b);
        let y = concat(nh.c, nl.c);
        return ite(nh.a, x, y);
    }
    if nh.op == Op::Ite && nl.op == Op::Const && const_ite(h, 8) {
        let x = concat(nh.b, l);
        let y = concat(nh.c, l);
        return ite(nh.a, x, y);
    }
    mk(Op::Concat, w, h, l, 0, 0)
}
pub fn ite(c: Id, t: Id, e: Id) -> Id {
    if let Some(k) = isk(c) {
        return if k != 0 { t } else { e };
    }
    if t == e {
        return t;
    }
    let nc = node(c);
    if nc.op == Op::Not {
        return ite(nc.a, e, t);
    }
    let (nt, ne) = (node(t), node(e));
    let w = nt.w;
    if w == 1 {
        match (isk(t), isk(e)) {
            (Some(1), Some(0)) => return c,
            (Some(0), Some(1)) => return not(c),
            (Some(1), None) => return bin(Op::Or, 1, c, e),
            (Some(0), None) => {
                let n = not(c);
                return bin(Op::And, 1, n, e);
            }
            (None, Some(0)) => return bin(Op::And, 1, c, t),
            (None, Some(1)) => {
                let n = not(c);
                return bin(Op::Or, 1, n, t);
            }
            _ => {}
        }
    }
    // nested same-branch merging
    if nt.op == Op::Ite {
        if nt.a == c {
            return ite(c, nt.b, e);
        }
        if nt.c == e {
            let cc = bin(Op::And, 1, c, nt.a);
            return ite(cc, nt.b, e);
        }
        if nt.b == e {
            let nn = not(nt.a);
            let cc = bin(Op::And, 1, c, nn);
            return ite(cc, nt.c, e);
        }
    }
    if ne.op == Op::Ite {
        if ne.a == c {
            return ite(c, t, ne.c);
        }
        if ne.b == t {
            let cc = bin(Op::Or, 1, c, ne.a);
            return ite(cc, t, ne.c);
        }
        if ne.c == t {
            let nn = not(ne.a);
            let cc = bin(Op::Or, 1, c, nn);
            return ite(cc, t, ne.b);
        }
    }
    if nt.op == Op::ZExt && ne.op == Op::ZExt && node(nt.a).w == node(ne.a).w {
        let x = ite(c, nt.a, ne.a);
        return zext(x, w);
    }
    mk(Op::Ite, w, c, t, e, 0)
}

// ---- Val-level helpers ----
#[inline]
pub fn vbin(op: Op, w: u8, a: &Val, b: &Val) -> Val {
    if let (Val::C(x), Val::C(y)) = (a, b) {
        // fast concrete path (operand width == w for arithmetic; w is operand width here)
        let m = mask64(w);
        let (x, y) = (*x, *y);
        let r = match op {
            Op::Add => x.wrapping_add(y) & m,
            Op::Sub => x.wrapping_sub(y) & m,
            Op::Mul => x.wrapping_mul(y) & m,
            Op::And => x & y,
            Op::Or => x | y,
            Op::Xor => x ^ y,
            Op::Shl => {
                if y >= w as u64 {
                    0
                } else {
                    (x << y) & m
                }
            }
            Op::LShr => {
                if y >= w as u64 {
                    0
                } else {
                    x >> y
                }
            }
            Op::Eq => (x == y) as u64,
            Op::Ult => (x < y) as u64,
            Op::Ule => (x <= y) as u64,
            Op::Slt => (sx64(x, w) < sx64(y, w)) as u64,
            Op::Sle => (sx64(x, w) <= sx64(y, w)) as u64,
            _ => fold(op, w, w, x as u128, y as u128, 0, 0) as u64,
        };
        return Val::C(r);
    }
    let rw = if is_cmp(op) { 1 } else { w };
    val_of(bin(op, rw, id_of(w, a), id_of(w, b)))
}
pub fn vzext(a: &Val, from: u8, to: u8) -> Val {
    match a {
        Val::C(c) if to <= 64 => Val::C(*c),
        _ => val_of(zext(id_of(from, a), to)),
    }
}
pub fn vsext(a: &Val, from: u8, to: u8) -> Val {
    match a {
        Val::C(c) if to <= 64 => Val::C((sx64(*c, from) as u64) & mask64(to)),
        _ => val_of(sext(id_of(from, a), to)),
    }
}
pub fn vtrunc(a: &Val, from: u8, to: u8) -> Val {
    match a {
        Val::C(c) => Val::C(*c & mask64(to)),
        Val::U => Val::U,
        _ => val_of(extract(id_of(from, a), 0, to)),
    }
}
pub fn vextract(a: &Val, from: u8, off: u8, w: u8) -> Val {
    match a {
        Val::C(c) => Val::C((*c >> off) & mask64(w)),
        _ => val_of(extract(id_of(from, a), off, w)),
    }
}
pub fn vconcat(h: &Val, hw: u8, l: &Val, lw: u8) -> Val {
    if let (Val::C(x), Val::C(y)) = (h, l) {
        if hw + lw <= 64 {
            return Val::C((*x << lw) | *y);
        }
    }
    val_of(concat(id_of(hw, h), id_of(lw, l)))
}
pub fn vite(c: &Val, t: &Val, e: &Val, w: u8) -> Val {
    match c {
        Val::C(x) => {
            if *x != 0 {
                t.clone()
            } else {
                e.clone()
            }
        }
        Val::E(i) => {
            if let (Val::C(x), Val::C(y)) = (t, e) {
                if x == y {
                    return Val::C(*x);
                }
            }
            val_of(ite(*i, id_of(w, t), id_of(w, e)))
        }
        _ => t.clone(),
    }
}
pub fn vnot1(c: &Val) -> Val {
    match c {
        Val::C(x) => Val::C(x ^ 1),
        Val::E(i) => val_of(not(*i)),
        _ => Val::C(1),
    }
}

/// The expression with the variables of `mask` replaced by their value in `model`.
pub fn fix(i: Id, mask: u128, model: &[u64], memo: &mut FxMap<Id, Id>) -> Id {
    let n = node(i);
    if n.sup & mask == 0 {
        return i;
    }
    if n.op == Op::Var {
        return konst(n.w, model[n.k as usize] as u128);
    }
    if n.sup & !mask == 0 {
        let mut m = FxMap::default();
        return konst(n.w, eval(i, model, &mut m));
    }
    if let Some(r) = memo.get(&i) {
        return *r;
    }
    let mut f = |x: Id| fix(x, mask, model, memo);
    let r = match n.op {
        Op::Ite => {
            let c = f(n.a);
            let cn = node(c);
            if cn.op == Op::Const {
                if cn.k != 0 {
                    f(n.b)
                } else {
                    f(n.c)
                }
            } else {
                let (b, c2) = (f(n.b), f(n.c));
                ite(c, b, c2)
            }
        }
        Op::Not => {
            let a = f(n.a);
            not(a)
        }
        Op::ZExt => {
            let a = f(n.a);
            zext(a, n.w)
        }
        Op::SExt => {
            let a = f(n.a);
            sext(a, n.w)
        }
        Op::Extract => {
            let a = f(n.a);
            extract(a, n.k as u8, n.w)
        }
        Op::Concat => {
            let (a, b) = (f(n.a), f(n.b));
            concat(a, b)
        }
        _ => {
            let (a, b) = (f(n.a), f(n.b));
            bin(n.op, n.w, a, b)
        }
    };
    memo.insert(i, r);
    r
}

/// Evaluate under an assignment (index by variable number).
pub fn eval(i: Id, model: &[u64], memo: &mut FxMap<Id, u128>) -> u128 {
    let n = node(i);
    match n.op {
        Op::Const => return n.k,
        Op::Var => return *model.get(n.k as usize).unwrap_or(&0) as u128 & mask(n.w),
        _ => {}
    }
    if let Some(v) = memo.get(&i) {
        return *v;
    }
    let r = match n.op {
        Op::Ite => {
            if eval(n.a, model, memo) != 0 {
                eval(n.b, model, memo)
            } else {
                eval(n.c, model, memo)
            }
        }
        Op::Concat => {
            let h = eval(n.a, model, memo);
            let l = eval(n.b, model, memo);
            (h << node(n.b).w) | l
        }
        Op::And if n.w == 1 => {
            if eval(n.a, model, memo) == 0 {
                0
            } else {
                eval(n.b, model, memo)
            }
        }
        Op::Or if n.w == 1 => {
            if eval(n.a, model, memo) != 0 {
                1
            } else {
                eval(n.b, model, memo)
            }
        }
        Op::Not | Op::ZExt | Op::SExt | Op::Extract => {
            let a = eval(n.a, model, memo);
            fold(n.op, n.w, node(n.a).w, a, 0, 0, n.k)
        }
        _ => {
            let a = eval(n.a, model, memo);
            let b = eval(n.b, model, memo);
            fold(n.op, n.w, node(n.a).w, a, b, 0, n.k)
        }
    };
    memo.insert(i, r);
    r
}

/// Single byte-sized support variable, if that is the whole support.
pub fn unary_var(i: Id) -> Option<usize> {
    let s = node(i).sup;
    if s != 0 && s & (s - 1) == 0 {
        let v = s.trailing_zeros() as usize;
        if ar().vars[v].w <= 8 {
            return Some(v);
        }
    }
    None
}

/// Truth table of a boolean over one byte variable.
pub fn truth(i: Id) -> Rc<[u64; 4]> {
    if let Some(t) = ar().tt.get(&i) {
        return t.clone();
    }
    let n = node(i);
    let v = unary_var(i).unwrap();
    // structural shortcuts
    let res = match n.op {
        Op::And if n.w == 1 && unary_var(n.a).is_some() && unary_var(n.b).is_some() => {
            let (x, y) = (truth(n.a), truth(n.b));
            [x[0] & y[0], x[1] & y[1], x[2] & y[2], x[3] & y[3]]
        }
        Op::Or if n.w == 1 && unary_var(n.a).is_some() && unary_var(n.b).is_some() => {
            let (x, y) = (truth(n.a), truth(n.b));
            [x[0] | y[0], x[1] | y[1], x[2] | y[2], x[3] | y[3]]
        }
        Op::Not if n.w == 1 && unary_var(n.a).is_some() => {
            let x = truth(n.a);
            [!x[0], !x[1], !x[2], !x[3]]
        }
        _ => {
            let w = ar().vars[v].w;
            let mut out = [0u64; 4];
            let mut model = vec![0u64; v + 1];
            let mut memo = FxMap::default();
            for x in 0..(1u64 << w) {
                model[v] = x;
                memo.clear();
                if eval(i, &model, &mut memo) != 0 {
                    out[(x >> 6) as usize] |= 1 << (x & 63);
                }
            }
            out
        }
    };
    let w = ar().vars[v].w;
    let mut res = res;
    if w < 8 {
        for x in (1u64 << w)..256 {
            res[(x >> 6) as usize] &= !(1 << (x & 63));
        }
    }
    let r = Rc::new(res);
    ar().tt.insert(i, r.clone());
    r
}

pub fn show(i: Id, depth: u32) -> String {
    let n = node(i);
    match n.op {
        Op::Const => format!("{:#x}", n.k),
        Op::Var => ar().vars[n.k as usize].name.clone(),
        _ if depth == 0 => "..".into(),
        Op::Ite => format!(
            "(ite {} {} {})",
            show(n.a, depth - 1),
            show(n.b, depth - 1),
            show(n.c, depth - 1)
        ),
        Op::Not | Op::ZExt | Op::SExt => format!("({:?}{} {})", n.op, n.w, show(n.a, depth - 1)),
        Op::Extract => format!("(ext {}+{} {})", n.k, n.w, show(n.a, depth - 1)),
        _ => format!(
            "({:?} {} {})",
            n.op,
            show(n.a, depth - 1),
            show(n.b, depth - 1)
        ),
    }
}

/// The set of a byte variable's values given by `t`, written as a disjunction of intervals.
pub fn dom_expr(v: usize, t: &[u64; 4]) -> Id {
    let key = (v, *t);
    if let Some(x) = ar().doms.get(&key) {
        return *x;
    }
    let w = ar().vars[v].w;
    let n = 1u32 << w;
    let has = |x: u32| t[(x >> 6) as usize] >> (x & 63) & 1 == 1;
    let cnt: u32 = (0..n).filter(|x| has(*x)).count() as u32;
    let var = ar().var_ids[v];
    let r = if cnt == n {
        konst(1, 1)
    } else if cnt == 0 {
        konst(1, 0)
    } else if cnt > n / 2 {
        let c = [!t[0], !t[1], !t[2], !t[3]];
        let mut m = [0u64; 4];
        for x in 0..n {
            m[(x >> 6) as usize] |= 1 << (x & 63);
        }
        not(dom_expr(v, &[c[0] & m[0], c[1] & m[1], c[2] & m[2], c[3] & m[3]]))
    } else {
        let mut acc = konst(1, 0);
        let mut x = 0;
        while x < n {
            if !has(x) {
                x += 1;
                continue;
            }
            let lo = x;
            while x < n && has(x) {
                x += 1;
            }
            let hi = x - 1;
            let e = if lo == hi {
                bin(Op::Eq, 1, var, konst(w, lo as u128))
            } else {
                let a = bin(Op::Ule, 1, konst(w, lo as u128), var);
                let b = bin(Op::Ule, 1, var, konst(w, hi as u128));
                bin(Op::And, 1, a, b)
            };
            acc = bin(Op::Or, 1, acc, e);
        }
        acc
    };
    ar().doms.insert(key, r);
    r
}
