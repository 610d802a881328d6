//! Symbolic interpreter for LLVM IR.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::z3::*;
use std::collections::{HashSet, BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

#[derive(Clone)]
pub struct Frame {
    pub func: Rc<Func>,
    pub regs: Vec<Val>,
    pub blk: u32,
    pub ip: u32,
    pub sp: u64,
    pub ret_dst: u32,
    pub ret_to: u32,
    pub va: u64,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Rc<Frame>>,
    pub mem: Mem,
    pub sp: u64,
    pub pc: Vec<Id>,
    pub doms: Rc<Vec<Option<Rc<[u64; 4]>>>>,
    pub multi: u128,
    pub model: Rc<Vec<u64>>,
    pub subst: Rc<FxMap<Id, u64>>,
    pub inputs: Rc<Vec<u32>>,
    pub nvar: [u16; 4], // per width class 8,16,32,64
    pub obs: Rc<Vec<Val>>,
    pub covers: u64,
    pub forks: u32,
    pub steps: u64,
}

pub enum Need {
    Conc(Id, u8),
    Err(String),
    Panic(String),
    Assume,
    Fork(Vec<State>),
    Done,
}
type R<T> = Result<T, Need>;

pub struct Base {
    pub pc_len: usize,
    pub doms: Rc<Vec<Option<Rc<[u64; 4]>>>>,
    pub multi: u128,
}

pub enum Ev {
    Ended,
    Returned(State),
    Forked(Vec<State>, Base),
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String,
    pub msg: String,
    pub inputs: Vec<(u8, u64)>,
    pub stack: Vec<String>,
}

#[derive(Default, Clone)]
pub struct Report {
    pub paths_ok: u64,
    pub paths_assume: u64,
    pub paths_violation: u64,
    pub paths_error: u64,
    pub steps: u64,
    pub forks: u64,
    pub merges: u64,
    pub branch_unary: u64,
    pub asserts_symbolic: u64,
    pub asserts_concrete: u64,
    pub violations: Vec<Violation>,
    pub errors: BTreeMap<String, u64>,
    pub covers: BTreeMap<u32, u64>,
    pub samples: Vec<(Vec<(u8, u64)>, Vec<u8>)>,
    pub funcs: BTreeSet<u32>,
    pub timed_out: bool,
    /// models of paths that were not followed to their end
    pub open: Vec<(String, Vec<(u8, u64)>)>,
    pub max_depth_forks: u32,
}

pub struct Exec {
    pub m: Module,
    pub z3: Z3,
    pub rep: Report,
    pub merge: Vec<bool>,
    pub merge_names: Vec<String>,
    proved: HashSet<Vec<Id>>,
    qcache: HashMap<Vec<Id>, Option<Rc<Vec<u64>>>>,
    pub deadline: std::time::Instant,
    pub max_violations: usize,
    pub sample_every: u64,
    pub max_samples: usize,
    natives: HashMap<u32, Nat>,
    vars_by_class: [Vec<u32>; 4],
    pub max_steps: u64,
    pub trace: bool,
    pub params: Vec<u64>,
    pub prof: FxMap<u32, u64>,
    pub forkprof: FxMap<u32, u64>,
    pub verbose: bool,
    pub cur_violation_keys: BTreeSet<String>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Nat {
    None,
    Body,
    SymByte,
    SymU16,
    SymU32,
    SymU64,
    Assume,
    Assert,
    Cover,
    Observe,
    Log,
    Concrete,
    Param,
    IsSym,
    Panic,
    Malloc,
    Calloc,
    Realloc,
    Free,
    PosixMemalign,
    Memcmp,
    Bcmp,
    Strlen,
    Memcpy,
    Memset,
    Abort,
    Zero,
    Errno,
    RawFork,
}

pub struct BugOut;

fn cls(w: u8) -> usize {
    match w {
        8 => 0,
        16 => 1,
        32 => 2,
        _ => 3,
    }
}

impl Exec {
    pub fn new(m: Module) -> Exec {
        let n = m.funcs.len();
        Exec {
            m,
            z3: Z3::new(),
            rep: Report::default(),
            merge: vec![false; n],
            merge_names: vec![],
            proved: HashSet::new(),
            qcache: HashMap::new(),
            deadline: std::time::Instant::now() + std::time::Duration::from_secs(3600),
            max_violations: 8,
            sample_every: 1,
            max_samples: 64,
            natives: HashMap::new(),
            vars_by_class: Default::default(),
            max_steps: 50_000_000,
            trace: false,
            params: vec![],
            prof: FxMap::default(),
            forkprof: FxMap::default(),
            verbose: false,
            cur_violation_keys: BTreeSet::new(),
        }
    }

    pub fn set_merge(&mut self, pats: &[String]) {
        for (i, f) in self.m.funcs.iter().enumerate() {
            if f.off.is_some() && pats.iter().any(|p| name_match(&f.name, p)) {
                self.merge[i] = true;
                self.merge_names.push(f.name.to_string());
            }
        }
    }

    pub fn initial(&mut self, entry: &str) -> State {
        let mut mem = Mem {
            g: Region::new(GLOB_BASE),
            s: Region::new(STACK),
            h: Region::new(HEAP),
            g_end: self.m.glob_end,
            heap: HEAP + 64,
        };
        let gs: Vec<(u64, TyId, Option<usize>)> =
            self.m.globals.iter().map(|g| (g.addr, g.ty, g.init)).collect();
        for (a, t, init) in gs {
            if let Some(off) = init {
                let size = self.m.t(t).size as usize;
                let mut buf = vec![0u8; size];
                let mut l = Lx::new(self.m.src, off);
                self.m.write_const(&mut l, t, &mut buf);
                if buf.iter().any(|x| *x != 0) {
                    mem.write_raw(a, &buf);
                }
            }
        }
        let idx = *self
            .m
            .fmap
            .get(entry)
            .unwrap_or_else(|| panic!("no entry {}", entry));
        let f = self.m.func(idx).unwrap();
        let fr = Frame {
            regs: vec![Val::U; f.nregs as usize],
            func: f,
            blk: 0,
            ip: 0,
            sp: STACK + 64,
            ret_dst: u32::MAX,
            ret_to: u32::MAX,
            va: 0,
        };
        State {
            frames: vec![Rc::new(fr)],
            mem,
            sp: STACK + 64,
            pc: vec![],
            doms: Rc::new(vec![]),
            multi: 0,
            model: Rc::new(vec![]),
            subst: Rc::new(FxMap::default()),
            inputs: Rc::new(vec![]),
            nvar: [0; 4],
            obs: Rc::new(vec![]),
            covers: 0,
            forks: 0,
            steps: 0,
        }
    }

    // ------------------------------------------------------------ solver

    fn ev(&self, st: &State, c: Id) -> u128 {
        let mut memo = FxMap::default();
        eval(c, &st.model, &mut memo)
    }

    /// Is pc /\ c satisfiable?  Returns a model (extending the path's) if so.
    fn feasible(&mut self, st: &State, c: Id) -> R<Option<Rc<Vec<u64>>>> {
        let n = node(c);
        if n.op == Op::Const {
            return Ok(if n.k != 0 { Some(st.model.clone()) } else { None });
        }
        if self.ev(st, c) != 0 {
            return Ok(Some(st.model.clone()));
        }
        if let Some(v) = unary_var(c) {
            let t = truth(c);
            let full = [u64::MAX; 4];
            let d: &[u64; 4] = match st.doms.get(v) {
                Some(Some(d)) => d,
                _ => &full,
            };
            let x = [t[0] & d[0], t[1] & d[1], t[2] & d[2], t[3] & d[3]];
            self.rep.branch_unary += 1;
            if x == [0; 4] {
                return Ok(None);
            }
            if st.multi >> v & 1 == 0 {
                let mut m = (*st.model).clone();
                if m.len() <= v {
                    m.resize(v + 1, 0);
                }
                for i in 0..4 {
                    if x[i] != 0 {
                        m[v] = (i * 64) as u64 + x[i].trailing_zeros() as u64;
                        break;
                    }
                }
                return Ok(Some(Rc::new(m)));
            }
        }
        let (cs, sup) = slice(st, c);
        let last = node(*cs.last().unwrap());
        if last.op == Op::Const && last.k == 0 {
            return Ok(None);
        }
        let r = if let Some(r) = self.qcache.get(&cs) {
            r.clone()
        } else {
            let tq = std::time::Instant::now();
            let ans = self.z3.check(&cs, sup);
            if self.verbose && tq.elapsed().as_millis() > 200 {
                let st_: Vec<String> = st.frames.iter().rev().take(5).map(|f| f.func.name.to_string()).collect();
                eprintln!("SLOW {}ms in {:?}: {}", tq.elapsed().as_millis(), st_, show(c, 5));
            }
            let r = match ans {
                Answer::Sat(m) => Some(Rc::new(m)),
                Answer::Unsat => None,
                Answer::Unknown => return Err(Need::Err("solver returned unknown".into())),
            };
            if self.qcache.len() > 400_000 {
                self.qcache.clear();
            }
            self.qcache.insert(cs, r.clone());
            r
        };
        Ok(r.map(|m| {
            let mut out = (*st.model).clone();
            let nv = ar().vars.len();
            if out.len() < nv {
                out.resize(nv, 0);
            }
            for v in 0..nv.min(m.len()) {
                if sup >> v & 1 == 1 {
                    out[v] = m[v];
                }
            }
            Rc::new(out)
        }))
    }

    fn add(&mut self, st: &mut State, c: Id, model: Rc<Vec<u64>>) {
        st.model = model;
        self.add_c(st, c);
    }
    fn add_c(&mut self, st: &mut State, c: Id) {
        let n = node(c);
        if n.op == Op::Const {
            return;
        }
        if n.op == Op::And && n.w == 1 {
            self.add_c(st, n.a);
            self.add_c(st, n.b);
            return;
        }
        if st.pc.contains(&c) {
            return;
        }
        st.pc.push(c);
        if let Some(v) = unary_var(c) {
            let t = truth(c);
            let doms = Rc::make_mut(&mut st.doms);
            if doms.len() <= v {
                doms.resize(v + 1, None);
            }
            let nd = match &doms[v] {
                Some(d) => [d[0] & t[0], d[1] & t[1], d[2] & t[2], d[3] & t[3]],
                None => *t,
            };
            doms[v] = Some(Rc::new(nd));
        } else {
            st.multi |= n.sup;
        }
    }

    /// All feasible values of e on this path (bounded).
    fn values(&mut self, st: &State, e: Id, cap: usize) -> R<Vec<(u64, Rc<Vec<u64>>)>> {
        let w = node(e).w;
        let mut out: Vec<(u64, Rc<Vec<u64>>)> = vec![];
        if let Some(v) = unary_var(e) {
            if st.multi >> v & 1 == 0 {
                let vw = ar().vars[v].w;
                let mut m = (*st.model).clone();
                if m.len() <= v {
                    m.resize(v + 1, 0);
                }
                let mut seen = BTreeSet::new();
                let mut memo = FxMap::default();
                for x in 0..(1u64 << vw) {
                    let ok = match st.doms.get(v) {
                        Some(Some(d)) => d[(x >> 6) as usize] >> (x & 63) & 1 == 1,
                        _ => true,
                    };
                    if ok {
                        m[v] = x;
                        memo.clear();
                        let r = eval(e, &m, &mut memo) as u64;
                        if seen.insert(r) {
                            out.push((r, Rc::new(m.clone())));
                        }
                    }
                }
                return Ok(out);
            }
        }
        let mut cur = st.clone();
        loop {
            let v = self.ev(&cur, e) as u64;
            out.push((v, cur.model.clone()));
            if out.len() > cap {
                return Err(Need::Err(format!(
                    "too many values when concretising {} in {}",
                    show(e, 4),
                    st.frames.last().unwrap().func.name
                )));
            }
            let eq = bin(Op::Eq, 1, e, konst(w, v as u128));
            let ne = not(eq);
            match self.feasible(&cur, ne)? {
                None => return Ok(out),
                Some(m) => self.add(&mut cur, ne, m),
            }
        }
    }

    fn base_of(st: &State) -> Base {
        Base {
            pc_len: st.pc.len(),
            doms: st.doms.clone(),
            multi: st.multi,
        }
    }

    // ------------------------------------------------------------ helpers

    fn conc(&self, st: &State, v: &Val, w: u8) -> R<u64> {
        match v {
            Val::C(c) => Ok(*c),
            Val::U => Ok(0),
            Val::E(e) => {
                let n = node(*e);
                if n.op == Op::Const {
                    return Ok(n.k as u64);
                }
                if let Some(k) = st.subst.get(e) {
                    return Ok(*k);
                }
                if w > 64 {
                    // concretise by halves is not supported; ask on the low part only if high is const
                    return Err(Need::Err("concretisation of >64 bit value".into()));
                }
                Err(Need::Conc(*e, w))
            }
            Val::A(_) => Err(Need::Err("aggregate as scalar".into())),
        }
    }

    fn new_sym(&mut self, st: &mut State, w: u8) -> Val {
        let c = cls(w);
        let k = st.nvar[c] as usize;
        st.nvar[c] += 1;
        if self.vars_by_class[c].len() <= k {
            let id = new_var(format!("s{}_{}", w, k), w);
            let vn = node(id).k as u32;
            self.vars_by_class[c].push(vn);
        }
        let vn = self.vars_by_class[c][k];
        Rc::make_mut(&mut st.inputs).push(vn);
        Val::E(ar().var_ids[vn as usize])
    }

    pub fn stack_names(&self, st: &State) -> Vec<String> {
        st.frames
            .iter()
            .rev()
            .map(|f| pretty(&f.func.name))
            .collect()
    }

    fn inputs_of(&self, st: &State, model: &[u64]) -> Vec<(u8, u64)> {
        st.inputs
            .iter()
            .map(|v| {
                let w = ar().vars[*v as usize].w;
                (w, *model.get(*v as usize).unwrap_or(&0) & mask64(w))
            })
            .collect()
    }

    fn violation(&mut self, st: &State, kind: &str, msg: String, extra: Option<Id>) {
        // final confirmation by the solver over the full path condition
        let mut cs = st.pc.clone();
        if let Some(e) = extra {
            cs.push(e);
        }
        let mut sup = 0;
        for c in &cs {
            sup |= node(*c).sup;
        }
        self.rep.paths_violation += 1;
        let stack = self.stack_names(st);
        let key = format!("{}:{}:{}", kind, msg, stack.iter().take(3).cloned().collect::<Vec<_>>().join("<"));
        if self.cur_violation_keys.contains(&key) && self.cur_violation_keys.len() > 0 {
            return;
        }
        match self.z3.check(&cs, sup) {
            Answer::Sat(mut m) => {
                for v in 0..m.len() {
                    if sup >> v & 1 == 0 {
                        m[v] = *st.model.get(v).unwrap_or(&0);
                    }
                }
                let inputs = self.inputs_of(st, &m);
                self.cur_violation_keys.insert(key);
                if self.verbose {
                    eprintln!("violation {} {} {:?} inputs {:?}", kind, msg, stack, inputs);
                }
                self.rep.violations.push(Violation {
                    kind: kind.into(),
                    msg,
                    inputs,
                    stack,
                });
            }
            Answer::Unsat => {
                *self
                    .rep
                    .errors
                    .entry("internal: violating path condition unsatisfiable".into())
                    .or_insert(0) += 1;
                self.rep.paths_error += 1;
            }
            Answer::Unknown => {
                *self.rep.errors.entry("solver unknown".into()).or_insert(0) += 1;
                self.rep.paths_error += 1;
            }
        }
    }

    fn path_ok(&mut self, st: &State) {
        self.rep.paths_ok += 1;
        self.rep.steps += 0;
        self.rep.max_depth_forks = self.rep.max_depth_forks.max(st.forks);
        for i in 0..64 {
            if st.covers >> i & 1 == 1 {
                *self.rep.covers.entry(i).or_insert(0) += 1;
            }
        }
        if self.rep.samples.len() < self.max_samples
            && (self.rep.paths_ok - 1) % self.sample_every == 0
        {
            // solver-produced witness of this path
            let mut sup = 0;
            for c in &st.pc {
                sup |= node(*c).sup;
            }
            let m = match self.z3.check(&st.pc, sup) {
                Answer::Sat(m) => m,
                _ => {
                    *self
                        .rep
                        .errors
                        .entry("internal: completed path condition not satisfiable".into())
                        .or_insert(0) += 1;
                    self.rep.paths_error += 1;
                    return;
                }
            };
            let inputs = self.inputs_of(st, &m);
            let mut memo = FxMap::default();
            let obs = st
                .obs
                .iter()
                .map(|v| match v {
                    Val::C(c) => *c as u8,
                    Val::E(e) => eval(*e, &m, &mut memo) as u8,
                    _ => 0,
                })
                .collect();
            self.rep.samples.push((inputs, obs));
            if self.rep.samples.len() == self.max_samples && self.max_samples >= 8 {
                // thin out: keep every other, double the stride
                let s = std::mem::take(&mut self.rep.samples);
                self.rep.samples = s.into_iter().step_by(2).collect();
                self.sample_every *= 2;
            }
        }
    }

    fn err(&mut self, st: &State, msg: String) {
        self.rep.paths_error += 1;
        let m = format!("{} @ {}", msg.clone(), self.stack_names(st).into_iter().take(4).collect::<Vec<_>>().join(" < "));
        if self.verbose {
            eprintln!("path error: {}", m);
        }
        let n = self.rep.errors.entry(m).or_insert(0);
        *n += 1;
        if *n <= 4 && self.rep.open.len() < 64 {
            let inputs = self.inputs_of(st, &st.model);
            self.rep.open.push((msg, inputs));
        }
    }
    /// Keep models of states left when time ran out.
    pub fn leave(&mut self, work: &[State]) {
        let step = (work.len() / 24).max(1);
        for st in work.iter().step_by(step) {
            let inputs = self.inputs_of(st, &st.model);
            self.rep.open.push(("time".into(), inputs));
        }
    }

    // ------------------------------------------------------------ exploration

    /// Depth-first exploration of everything reachable from `work`.
    pub fn explore_all(&mut self, work: &mut Vec<State>, limit_states: Option<usize>) {
        while let Some(st) = work.pop() {
            if std::time::Instant::now() > self.deadline {
                self.rep.timed_out = true;
                work.push(st);
                return;
            }
            if self.cur_violation_keys.len() >= self.max_violations {
                work.push(st);
                return;
            }
            match self.run(st, 0) {
                Ev::Ended => {}
                Ev::Returned(st) => self.path_ok(&st),
                Ev::Forked(v, _) => {
                    self.rep.forks += v.len() as u64 - 1;
                    if limit_states.is_some() {
                        // breadth-first while splitting
                        for s in v {
                            work.insert(0, s);
                        }
                    } else {
                        for s in v.into_iter().rev() {
                            work.push(s);
                        }
                    }
                }
            }
            if let Some(l) = limit_states {
                if work.len() >= l {
                    return;
                }
            }
        }
    }

    /// Run until the frame stack is back to `depth`, merging forked states.
    fn explore_merge(&mut self, st: State, depth: usize, ret_ty: TyId) -> Vec<State> {
        match self.run(st, depth) {
            Ev::Ended => vec![],
            Ev::Returned(s) => vec![s],
            Ev::Forked(v, base) => {
                self.rep.forks += v.len() as u64 - 1;
                let mut res: Vec<State> = vec![];
                for s in v {
                    if std::time::Instant::now() > self.deadline {
                        self.rep.timed_out = true;
                        return vec![];
                    }
                    let rs = self.explore_merge(s, depth, ret_ty);
                    for r in rs {
                        let mut r = Some(r);
                        for x in res.iter_mut() {
                            if let Some(m) = self.try_merge(x, r.as_ref().unwrap(), &base, ret_ty) {
                                *x = m;
                                r = None;
                                self.rep.merges += 1;
                                break;
                            }
                        }
                        if let Some(r) = r {
                            res.push(r);
                        }
                    }
                }
                res
            }
        }
    }

    fn merge_val(&self, c: Id, a: &Val, b: &Val, ty: TyId) -> Option<Val> {
        match (a, b) {
            (Val::U, _) => return Some(b.clone()),
            (_, Val::U) => return Some(a.clone()),
            _ => {}
        }
        match &self.m.t(ty).k {
            TyK::Struct(f, _) => {
                if let (Val::A(x), Val::A(y)) = (a, b) {
                    let mut o = vec![];
                    for i in 0..f.len() {
                        o.push(self.merge_val(c, &x[i], &y[i], f[i])?);
                    }
                    return Some(Val::A(o.into()));
                }
                None
            }
            TyK::Array(_, e) | TyK::Vector(_, e) => {
                if let (Val::A(x), Val::A(y)) = (a, b) {
                    let mut o = vec![];
                    for i in 0..x.len() {
                        o.push(self.merge_val(c, &x[i], &y[i], *e)?);
                    }
                    return Some(Val::A(o.into()));
                }
                None
            }
            _ => {
                let w = self.m.width(ty);
                if w == 0 {
                    return Some(a.clone());
                }
                Some(vite(&Val::E(c), a, b, w))
            }
        }
    }

    fn try_merge(&mut self, a: &State, b: &State, base: &Base, ret_ty: TyId) -> Option<State> {
        if a.frames.len() != b.frames.len() || a.sp != b.sp {
            return None;
        }
        if a.obs.len() != b.obs.len() || a.inputs.len() != b.inputs.len() || a.nvar != b.nvar {
            return None;
        }
        if a.covers != b.covers {
            return None;
        }
        let n = a.frames.len();
        for i in 0..n - 1 {
            if !Rc::ptr_eq(&a.frames[i], &b.frames[i]) {
                return None;
            }
        }
        let pages = a.mem.diff_pages(&b.mem);
        let mut diffs: Vec<(u64, Val, Val)> = vec![];
        for p in pages {
            for o in 0..PS as u64 {
                let ad = p + o;
                if ad >= a.sp && ad < HEAP && ad >= STACK {
                    continue; // dead stack
                }
                let (x, y) = (a.mem.byte(ad), b.mem.byte(ad));
                if x.1 != y.1 || (x.1 == 0 && x.0 != y.0) {
                    diffs.push((ad, a.mem.byte_val(ad), b.mem.byte_val(ad)));
                    if diffs.len() > 96 {
                        return None;
                    }
                }
            }
        }
        let conj = |s: &State| -> Id {
            let mut c = konst(1, 1);
            for x in &s.pc[base.pc_len..] {
                c = bin(Op::And, 1, c, *x);
            }
            c
        };
        let (ca, cb) = (conj(a), conj(b));
        // return register of the caller frame
        let fa = &a.frames[n - 1];
        let fb = &b.frames[n - 1];
        if fa.blk != fb.blk || fa.ip != fb.ip {
            return None;
        }
        let mut out = a.clone();
        {
            let mut regs = fa.regs.clone();
            let mut ndiff = 0;
            for i in 0..regs.len() {
                if !same(&fa.regs[i], &fb.regs[i]) {
                    ndiff += 1;
                    if ndiff > 1 {
                        return None;
                    }
                    regs[i] = self.merge_val(ca, &fa.regs[i], &fb.regs[i], ret_ty)?;
                }
            }
            let f = Rc::make_mut(out.frames.last_mut().unwrap());
            f.regs = regs;
        }
        for (ad, x, y) in diffs {
            let v = vite(&Val::E(ca), &x, &y, 8);
            // vite folds constants itself when ca is constant
            out.mem.set_byte(ad, &v);
        }
        out.mem.heap = a.mem.heap.max(b.mem.heap);
        out.pc.truncate(base.pc_len);
        out.doms = base.doms.clone();
        out.multi = base.multi;
        let or = bin(Op::Or, 1, ca, cb);
        self.add_c(&mut out, or);
        if !Rc::ptr_eq(&a.subst, &b.subst) {
            let mut s = FxMap::default();
            for (k, v) in a.subst.iter() {
                if b.subst.get(k) == Some(v) {
                    s.insert(*k, *v);
                }
            }
            out.subst = Rc::new(s);
        }
        // observations equal?
        for i in 0..a.obs.len() {
            if !same(&a.obs[i], &b.obs[i]) {
                return None;
            }
        }
        Some(out)
    }

    /// Run one state until it forks, ends, or returns to frame depth `depth`.
    pub fn run(&mut self, mut st: State, depth: usize) -> Ev {
        loop {
            let f = st.frames.last_mut().unwrap();
            let fr: &mut Frame = Rc::make_mut(f);
            let func: *const Func = &*fr.func;
            let func: &Func = unsafe { &*func };
            let blk = &func.blocks[fr.blk as usize];
            let ins = &blk.insts[fr.ip as usize];
            st.steps += 1;
            self.rep.steps += 1;
            if st.steps & 0xffff == 0 {
                if st.steps > self.max_steps {
                    self.err(&st, "step limit".into());
                    return Ev::Ended;
                }
                if std::time::Instant::now() > self.deadline {
                    self.rep.timed_out = true;
                    self.leave(std::slice::from_ref(&st));
                    return Ev::Ended;
                }
            }
            let r = self.step(&mut st, ins);
            match r {
                Ok(()) => {
                    if st.frames.len() == depth {
                        return Ev::Returned(st);
                    }
                }
                Err(Need::Done) => return Ev::Returned(st),
                Err(Need::Fork(v)) => {
                    if v.is_empty() {
                        // all branches infeasible/ended
                        return Ev::Ended;
                    }
                    if v.len() == 1 {
                        st = v.into_iter().next().unwrap();
                        if st.frames.len() == depth {
                            return Ev::Returned(st);
                        }
                        continue;
                    }
                    let base = Self::base_of(&st);
                    if self.verbose {
                        *self.forkprof.entry(st.frames.last().unwrap().func.idx).or_insert(0) += 1;
                    }
                    let v = v
                        .into_iter()
                        .map(|mut s| {
                            s.forks += 1;
                            s
                        })
                        .collect();
                    return Ev::Forked(v, base);
                }
                Err(Need::Conc(e, w)) => {
                            let vals = match self.values(&st, e, 300) {
                        Ok(v) => v,
                        Err(Need::Err(m)) => {
                            self.err(&st, m);
                            return Ev::Ended;
                        }
                        Err(_) => unreachable!(),
                    };
                    if vals.len() == 1 {
                        Rc::make_mut(&mut st.subst).insert(e, vals[0].0);
                        continue;
                    }
                    if self.verbose {
                        *self.forkprof.entry(st.frames.last().unwrap().func.idx).or_insert(0) += 1;
                    }
                    let base = Self::base_of(&st);
                    let mut out = vec![];
                    for (v, m) in vals {
                        let mut s = st.clone();
                        let eq = bin(Op::Eq, 1, e, konst(w, v as u128));
                        self.add(&mut s, eq, m);
                        Rc::make_mut(&mut s.subst).insert(e, v);
                        s.forks += 1;
                        out.push(s);
                    }
                    return Ev::Forked(out, base);
                }
                Err(Need::Err(m)) => {
                    self.err(&st, m);
                    return Ev::Ended;
                }
                Err(Need::Panic(m)) => {
                    self.violation(&st, "panic", m, None);
                    return Ev::Ended;
                }
                Err(Need::Assume) => {
                    self.rep.paths_assume += 1;
                    return Ev::Ended;
                }
            }
        }
    }

    #[inline]
    fn get(&self, fr: &Frame, o: &Opd) -> Val {
        match o {
            Opd::R(r) => fr.regs[*r as usize].clone(),
            Opd::K(v) => v.clone(),
        }
    }

    fn goto(&mut self, st: &mut State, to: u32) {
        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
        let from = fr.blk;
        fr.blk = to;
        fr.ip = 0;
        let func: *const Func = &*fr.func;
        let func: &Func = unsafe { &*func };
        let b = &func.blocks[to as usize];
        if b.phis.is_empty() {
            return;
        }
        let mut vals: Vec<(u32, Val)> = Vec::with_capacity(b.phis.len());
        for (dst, inc) in &b.phis {
            let mut found = false;
            for (p, o) in inc {
                if *p == from {
                    vals.push((
                        *dst,
                        match o {
                            Opd::R(r) => fr.regs[*r as usize].clone(),
                            Opd::K(v) => v.clone(),
                        },
                    ));
                    found = true;
                    break;
                }
            }
            if !found {
                panic!("phi without incoming edge in {}", func.name);
            }
        }
        for (d, v) in vals {
            fr.regs[d as usize] = v;
        }
    }

    fn check_addr(&self, st: &State, a: u64, n: u64) -> R<()> {
        if n == 0 || st.mem.valid(a, n) {
            Ok(())
        } else {
            Err(Need::Panic(format!("memory access out of bounds: {:#x}+{}", a, n)))
        }
    }

    fn load_ty(&self, st: &State, a: u64, ty: TyId) -> R<Val> {
        let t = self.m.t(ty);
        match &t.k {
            TyK::Int(_) | TyK::Ptr | TyK::Float | TyK::Double => {
                let w = self.m.width(ty);
                let n = ((w as usize) + 7) / 8;
                self.check_addr(st, a, n as u64)?;
                let v = st.mem.load(a, n);
                if (n * 8) as u8 != w {
                    Ok(vtrunc(&v, (n * 8) as u8, w))
                } else {
                    Ok(v)
                }
            }
            TyK::Array(n, e) => {
                let es = self.m.t(*e).size;
                let mut v = vec![];
                for i in 0..*n {
                    v.push(self.load_ty(st, a + i * es, *e)?);
                }
                Ok(Val::A(v.into()))
            }
            TyK::Vector(n, e) => {
                let ew = self.m.width(*e) as u64;
                if ew % 8 != 0 {
                    // bit vector
                    let tot = ew * *n as u64;
                    let nb = ((tot + 7) / 8) as usize;
                    self.check_addr(st, a, nb as u64)?;
                    let v = st.mem.load(a, nb);
                    let mut o = vec![];
                    for i in 0..*n as u64 {
                        o.push(vextract(&v, (nb * 8) as u8, (i * ew) as u8, ew as u8));
                    }
                    return Ok(Val::A(o.into()));
                }
                let es = self.m.t(*e).size;
                let mut v = vec![];
                for i in 0..*n as u64 {
                    v.push(self.load_ty(st, a + i * es, *e)?);
                }
                Ok(Val::A(v.into()))
            }
            TyK::Struct(f, _) => {
                let offs = &t.offs;
                let mut v = vec![];
                for (i, x) in f.iter().enumerate() {
                    v.push(self.load_ty(st, a + offs[i], *x)?);
                }
                Ok(Val::A(v.into()))
            }
            TyK::Fp80 => Err(Need::Err("x86_fp80 load".into())),
            _ => Ok(Val::U),
        }
    }

    fn store_ty(&self, st: &mut State, a: u64, ty: TyId, v: &Val) -> R<()> {
        let t = self.m.t(ty);
        match &t.k {
            TyK::Int(_) | TyK::Ptr | TyK::Float | TyK::Double => {
                let w = self.m.width(ty);
                let n = ((w as usize) + 7) / 8;
                self.check_addr(st, a, n as u64)?;
                if (n * 8) as u8 != w {
                    let z = vzext(v, w, (n * 8) as u8);
                    st.mem.store(a, n, &z);
                } else {
                    st.mem.store(a, n, v);
                }
                Ok(())
            }
            TyK::Array(_, e) | TyK::Vector(_, e) => {
                let e = *e;
                let vec = matches!(t.k, TyK::Vector(..));
                let ew = self.m.width(e) as u64;
                if let Val::A(x) = v {
                    if vec && ew % 8 != 0 {
                        let mut acc = x[0].clone();
                        let mut w = ew;
                        for y in x[1..].iter() {
                            acc = vconcat(y, ew as u8, &acc, w as u8);
                            w += ew;
                        }
                        let nb = (w + 7) / 8;
                        self.check_addr(st, a, nb)?;
                        let acc = vzext(&acc, w as u8, (nb * 8) as u8);
                        st.mem.store(a, nb as usize, &acc);
                        return Ok(());
                    }
                    let es = self.m.t(e).size;
                    for (i, y) in x.iter().enumerate() {
                        self.store_ty(st, a + i as u64 * es, e, y)?;
                    }
                }
                Ok(())
            }
            TyK::Struct(f, _) => {
                if let Val::A(x) = v {
                    let offs = t.offs.clone();
                    let f = f.clone();
                    for (i, y) in x.iter().enumerate() {
                        self.store_ty(st, a + offs[i], f[i], y)?;
                    }
                }
                Ok(())
            }
            TyK::Fp80 => Err(Need::Err("x86_fp80 store".into())),
            _ => Ok(()),
        }
    }

    /// Load through a symbolic address.
    fn load_sym(&mut self, st: &State, e: Id, ty: TyId) -> R<Val> {
        if let Some(k) = st.subst.get(&e) {
            return self.load_ty(st, *k, ty);
        }
        let w = self.m.width(ty);
        let scalar = matches!(self.m.t(ty).k, TyK::Int(_) | TyK::Ptr);
        if !scalar {
            return Err(Need::Conc(e, 64));
        }
        // ITE of constants
        let n = node(e);
        if n.op == Op::Ite {
            let mut leaves = vec![];
            if ite_leaves(e, &mut leaves, 64) {
                return self.load_ite(st, e, e, ty, w);
            }
        }
        // unary: enumerate domain
        let mut addrs: Vec<u64> = vec![];
        if let Some(v) = unary_var(e) {
            let vw = ar().vars[v].w;
            let mut m = vec![0u64; v + 1];
            let mut memo = FxMap::default();
            let mut set = BTreeSet::new();
            for x in 0..(1u64 << vw) {
                let ok = match st.doms.get(v) {
                    Some(Some(d)) => d[(x >> 6) as usize] >> (x & 63) & 1 == 1,
                    _ => true,
                };
                if ok {
                    m[v] = x;
                    memo.clear();
                    set.insert(eval(e, &m, &mut memo) as u64);
                }
            }
            addrs = set.into_iter().collect();
        } else {
            // an address made of few-valued functions of single bytes: split on those
            let mut parts = vec![];
            if unary_parts(e, &mut parts, &mut 2000) {
                let mut all = true;
                let mut ok = true;
                let mut first = None;
                for p in parts.iter() {
                    if st.subst.contains_key(p) {
                        continue;
                    }
                    all = false;
                    if st.multi >> unary_var(*p).unwrap() & 1 == 1 {
                        ok = false;
                        break;
                    }
                    if self.values(st, *p, 300)?.len() > 48 {
                        ok = false;
                        break;
                    }
                    if first.is_none() {
                        first = Some(*p);
                    }
                }
                if all {
                    let k = self.ev(st, e) as u64;
                    return self.load_ty(st, k, ty);
                }
                if ok {
                    let p = first.unwrap();
                    return Err(Need::Conc(p, node(p).w));
                }
            }
            // base + bounded offset
            let (k, x) = if n.op == Op::Add {
                match as_const(&val_of(n.b)) {
                    Some(k) => (k as u64, n.a),
                    None => (0, e),
                }
            } else {
                (0, e)
            };
            if k != 0 {
                let um = umax(x);
                let stride = tz(x);
                if um <= (1 << 20) && (um >> stride) <= 40000 {
                    let mut a = 0u64;
                    while a as u128 <= um {
                        let ad = k.wrapping_add(a);
                        if st.mem.valid(ad, (w as u64 + 7) / 8) {
                            addrs.push(ad);
                        }
                        a += 1 << stride;
                    }
                }
            }
        }
        if addrs.is_empty() {
            return Err(Need::Conc(e, 64));
        }
        if addrs.len() == 1 {
            return self.load_ty(st, addrs[0], ty);
        }
        // bounds violation possible?
        let lo = addrs[0];
        let hi = *addrs.last().unwrap();
        if !st.mem.valid(lo, 1) || !st.mem.valid(hi, 1) {
            return Err(Need::Conc(e, 64));
        }
        let mut vals: Vec<(u64, Val)> = vec![];
        for a in &addrs {
            let v = match self.load_ty(st, *a, ty) {
                Ok(v) => v,
                Err(_) => return Err(Need::Conc(e, 64)),
            };
            match vals.last() {
                Some((_, p)) if same(p, &v) => {}
                _ => vals.push((*a, v)),
            }
        }
        if vals.len() > 6000 {
            return Err(Need::Err("symbolic table load too large".into()));
        }
        Ok(self.tree(e, &vals, w))
    }
    fn tree(&self, e: Id, v: &[(u64, Val)], w: u8) -> Val {
        if v.len() == 1 {
            return v[0].1.clone();
        }
        let mid = v.len() / 2;
        let l = self.tree(e, &v[..mid], w);
        let r = self.tree(e, &v[mid..], w);
        let c = bin(Op::Ult, 1, e, konst(64, v[mid].0 as u128));
        vite(&val_of(c), &l, &r, w)
    }
    fn load_ite(&mut self, st: &State, root: Id, e: Id, ty: TyId, w: u8) -> R<Val> {
        let n = node(e);
        if n.op == Op::Ite {
            let a = self.load_ite(st, root, n.b, ty, w)?;
            let b = self.load_ite(st, root, n.c, ty, w)?;
            return Ok(vite(&Val::E(n.a), &a, &b, w));
        }
        let k = n.k as u64;
        let nb = (w as u64 + 7) / 8;
        if !st.mem.valid(k, nb) {
            return Err(Need::Conc(root, 64));
        }
        self.load_ty(st, k, ty)
    }

    fn step(&mut self, st: &mut State, ins: &Inst) -> R<()> {
        let fr: &mut Frame = unsafe { &mut *(Rc::as_ptr(st.frames.last().unwrap()) as *mut Frame) };
        // (run() has already made this frame unique)
        macro_rules! set {
            ($d:expr, $v:expr) => {{
                let v = $v;
                fr.regs[*$d as usize] = v;
                fr.ip += 1;
                return Ok(());
            }};
        }
        match ins {
            Inst::Bin {
                dst,
                op,
                w,
                a,
                b,
                vec,
            } => {
                let x = self.get(fr, a);
                let y = self.get(fr, b);
                if *vec {
                    let (x, y) = (self.lanes(&x), self.lanes(&y));
                    let o: Vec<Val> = x.iter().zip(y.iter()).map(|(p, q)| vbin(*op, *w, p, q)).collect();
                    set!(dst, Val::A(o.into()))
                }
                if matches!(op, Op::UDiv | Op::SDiv | Op::URem | Op::SRem) {
                    if let Some(0) = as_const(&y) {
                        return Err(Need::Panic("division by zero (undefined behaviour)".into()));
                    }
                }
                set!(dst, vbin(*op, *w, &x, &y))
            }
            Inst::ICmp {
                dst,
                op,
                swap,
                neg,
                w,
                a,
                b,
                vec,
            } => {
                let x = self.get(fr, a);
                let y = self.get(fr, b);
                let f = |p: &Val, q: &Val| {
                    let r = if *swap {
                        vbin(*op, *w, q, p)
                    } else {
                        vbin(*op, *w, p, q)
                    };
                    if *neg {
                        vnot1(&r)
                    } else {
                        r
                    }
                };
                if *vec {
                    let (x, y) = (self.lanes(&x), self.lanes(&y));
                    let o: Vec<Val> = x.iter().zip(y.iter()).map(|(p, q)| f(p, q)).collect();
                    set!(dst, Val::A(o.into()))
                }
                set!(dst, f(&x, &y))
            }
            Inst::Load { dst, ty, ptr } => {
                let p = self.get(fr, ptr);
                match &p {
                    Val::C(a) => {
                        let v = self.load_ty(st, *a, *ty)?;
                        set!(dst, v)
                    }
                    Val::E(e) => {
                        let v = self.load_sym(st, *e, *ty)?;
                        set!(dst, v)
                    }
                    _ => Err(Need::Panic("load through undefined pointer".into())),
                }
            }
            Inst::Store { ty, val, ptr } => {
                let p = self.get(fr, ptr);
                let a = self.conc(st, &p, 64)?;
                let v = self.get(fr, val);
                self.store_ty(st, a, *ty, &v)?;
                fr.ip += 1;
                Ok(())
            }
            Inst::Gep {
                dst,
                base,
                off,
                idx,
            } => {
                let b = self.get(fr, base);
                let mut acc = vbin(Op::Add, 64, &b, &Val::C(*off));
                for (o, w, scale) in idx {
                    let i = self.get(fr, o);
                    let i = if *w == 64 { i } else { vsext(&i, *w, 64) };
                    let t = if *scale == 1 {
                        i
                    } else {
                        vbin(Op::Mul, 64, &i, &Val::C(*scale))
                    };
                    acc = vbin(Op::Add, 64, &acc, &t);
                }
                set!(dst, acc)
            }
            Inst::Br(b) => {
                self.goto(st, *b);
                Ok(())
            }
            Inst::CondBr { c, t, f } => {
                let v = self.get(fr, c);
                match v {
                    Val::C(x) => {
                        self.goto(st, if x & 1 != 0 { *t } else { *f });
                        Ok(())
                    }
                    Val::E(e) => {
                        let ne = not(e);
                        let mt = self.feasible(st, e)?;
                        let mf = self.feasible(st, ne)?;
                        match (mt, mf) {
                            (Some(_), None) => {
                                self.goto(st, *t);
                                Ok(())
                            }
                            (None, Some(_)) => {
                                self.goto(st, *f);
                                Ok(())
                            }
                            (Some(a), Some(b)) => {
                                let mut s1 = st.clone();
                                self.add(&mut s1, e, a);
                                self.goto(&mut s1, *t);
                                let mut s2 = st.clone();
                                self.add(&mut s2, ne, b);
                                self.goto(&mut s2, *f);
                                Err(Need::Fork(vec![s1, s2]))
                            }
                            (None, None) => Err(Need::Err("path became infeasible".into())),
                        }
                    }
                    _ => Err(Need::Err("branch on undef".into())),
                }
            }
            Inst::Switch { w, v, def, cases } => {
                let x = self.get(fr, v);
                match x {
                    Val::C(k) => {
                        let mut to = *def;
                        for (c, d) in cases {
                            if *c == k {
                                to = *d;
                                break;
                            }
                        }
                        self.goto(st, to);
                        Ok(())
                    }
                    Val::E(e) => {
                        // group by destination
                        let mut order: Vec<u32> = vec![];
                        let mut conds: HashMap<u32, Id> = HashMap::new();
                        let mut any = konst(1, 0);
                        for (c, d) in cases {
                            let q = bin(Op::Eq, 1, e, konst(*w, *c as u128));
                            any = bin(Op::Or, 1, any, q);
                            match conds.get(d) {
                                Some(p) => {
                                    let o = bin(Op::Or, 1, *p, q);
                                    conds.insert(*d, o);
                                }
                                None => {
                                    order.push(*d);
                                    conds.insert(*d, q);
                                }
                            }
                        }
                        let dq = not(any);
                        match conds.get(def) {
                            Some(p) => {
                                let o = bin(Op::Or, 1, *p, dq);
                                conds.insert(*def, o);
                            }
                            None => {
                                order.push(*def);
                                conds.insert(*def, dq);
                            }
                        }
                        let mut out = vec![];
                        for d in order {
                            let c = conds[&d];
                            if let Some(m) = self.feasible(st, c)? {
                                out.push((d, c, m));
                            }
                        }
                        if out.len() == 1 {
                            self.goto(st, out[0].0);
                            return Ok(());
                        }
                        let mut v = vec![];
                        for (d, c, m) in out {
                            let mut s = st.clone();
                            self.add(&mut s, c, m);
                            self.goto(&mut s, d);
                            v.push(s);
                        }
                        if v.is_empty() {
                            return Err(Need::Err("path became infeasible (switch)".into()));
                        }
                        Err(Need::Fork(v))
                    }
                    _ => Err(Need::Err("switch on undef".into())),
                }
            }
            Inst::Ret(o) => {
                let v = o.as_ref().map(|x| self.get(fr, x));
                let (dst, to, sp) = (fr.ret_dst, fr.ret_to, fr.sp);
                st.sp = sp;
                st.frames.pop();
                if st.frames.is_empty() {
                    return Err(Need::Done);
                }
                {
                    let c = Rc::make_mut(st.frames.last_mut().unwrap());
                    if dst != u32::MAX {
                        c.regs[dst as usize] = v.unwrap_or(Val::U);
                    }
                    if to == u32::MAX {
                        c.ip += 1;
                    }
                }
                if to != u32::MAX {
                    self.goto(st, to);
                }
                Ok(())
            }
            Inst::Select {
                dst,
                c,
                a,
                b,
                ty,
                vc,
            } => {
                let cv = self.get(fr, c);
                let x = self.get(fr, a);
                let y = self.get(fr, b);
                if *vc {
                    let (cl, xl, yl) = (self.lanes(&cv), self.lanes(&x), self.lanes(&y));
                    let (_, e) = self.m.vec(*ty).unwrap();
                    let w = self.m.width(e);
                    let o: Vec<Val> = (0..cl.len()).map(|i| vite(&cl[i], &xl[i], &yl[i], w)).collect();
                    set!(dst, Val::A(o.into()))
                }
                // a condition on one byte that its remaining values decide
                let cv = match cv {
                    Val::E(e) => match decided(st, e) {
                        Some(k) => Val::C(k as u64),
                        None => Val::E(e),
                    },
                    v => v,
                };
                match cv {
                    Val::C(k) => set!(dst, if k & 1 != 0 { x } else { y }),
                    Val::E(e) => match self.merge_val(e, &x, &y, *ty) {
                        Some(v) => set!(dst, v),
                        None => Err(Need::Conc(e, 1)),
                    },
                    _ => set!(dst, x),
                }
            }
            Inst::Cast {
                dst,
                op,
                from,
                to,
                a,
            } => {
                let v = self.get(fr, a);
                let r = self.cast(st, *op, *from, *to, &v)?;
                set!(dst, r)
            }
            Inst::Alloca {
                dst,
                size,
                count,
                align,
            } => {
                let c = self.get(fr, count);
                let n = self.conc(st, &c, 64)?;
                let al = (*align).max(16);
                let a = (st.sp + al - 1) / al * al;
                st.sp = a + size * n;
                if st.sp > STACK + STACK_MAX - 65536 {
                    return Err(Need::Panic("stack overflow".into()));
                }
                set!(dst, Val::C(a))
            }
            Inst::Freeze { dst, a } => {
                let v = self.get(fr, a);
                set!(dst, v)
            }
            Inst::Extract { dst, a, path, .. } => {
                let mut v = self.get(fr, a);
                for p in path {
                    v = match &v {
                        Val::A(x) => x[*p as usize].clone(),
                        Val::U => Val::U,
                        _ => return Err(Need::Err("extractvalue".into())),
                    };
                }
                set!(dst, v)
            }
            Inst::Insert {
                dst,
                a,
                v,
                path,
                ty,
            } => {
                let base = self.get(fr, a);
                let x = self.get(fr, v);
                let r = self.insert(&base, *ty, path, x);
                set!(dst, r)
            }
            Inst::ExtElem { dst, a, i, .. } => {
                let v = self.get(fr, a);
                let k = self.get(fr, i);
                let k = self.conc(st, &k, 64)?;
                set!(dst, self.lanes(&v)[k as usize].clone())
            }
            Inst::InsElem { dst, a, v, i, ty } => {
                let b = self.get(fr, a);
                let x = self.get(fr, v);
                let k = self.get(fr, i);
                let k = self.conc(st, &k, 64)?;
                let mut l: Vec<Val> = match b {
                    Val::A(q) => q.to_vec(),
                    _ => vec![Val::U; self.m.vec(*ty).unwrap().0 as usize],
                };
                l[k as usize] = x;
                set!(dst, Val::A(l.into()))
            }
            Inst::Shuffle {
                dst,
                a,
                b,
                mask,
                ty,
            } => {
                let n = self.m.vec(*ty).unwrap().0 as i32;
                let (x, y) = (self.get(fr, a), self.get(fr, b));
                let z = Val::C(0);
                let pick = |v: &Val, i: usize| match v {
                    Val::A(q) => q[i].clone(),
                    _ => z.clone(),
                };
                let o: Vec<Val> = mask
                    .iter()
                    .map(|m| {
                        if *m < 0 {
                            Val::C(0)
                        } else if *m < n {
                            pick(&x, *m as usize)
                        } else {
                            pick(&y, (*m - n) as usize)
                        }
                    })
                    .collect();
                set!(dst, Val::A(o.into()))
            }
            Inst::FBin { dst, op, ty, a, b } => {
                let (x, y) = (self.get(fr, a), self.get(fr, b));
                if let Some((_, e)) = self.m.vec(*ty) {
                    let (x, y) = (self.lanes(&x), self.lanes(&y));
                    let mut o = vec![];
                    for i in 0..x.len() {
                        o.push(self.fbin(st, *op, e, &x[i], &y[i])?);
                    }
                    set!(dst, Val::A(o.into()))
                }
                let r = self.fbin(st, *op, *ty, &x, &y)?;
                set!(dst, r)
            }
            Inst::FNeg { dst, ty, a } => {
                let x = self.get(fr, a);
                let w = self.m.width(*ty);
                set!(dst, vbin(Op::Xor, w, &x, &Val::C(1u64 << (w - 1))))
            }
            Inst::FCmp {
                dst,
                pred,
                ty,
                a,
                b,
            } => {
                let (x, y) = (self.get(fr, a), self.get(fr, b));
                let w = self.m.width(*ty);
                let (x, y) = (self.conc(st, &x, w)?, self.conc(st, &y, w)?);
                let (x, y) = if w == 32 {
                    (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64)
                } else {
                    (f64::from_bits(x), f64::from_bits(y))
                };
                let un = x.is_nan() || y.is_nan();
                let r = match pred.as_str() {
                    "oeq" => x == y,
                    "ogt" => x > y,
                    "oge" => x >= y,
                    "olt" => x < y,
                    "ole" => x <= y,
                    "one" => !un && x != y,
                    "ord" => !un,
                    "uno" => un,
                    "ueq" => un || x == y,
                    "ugt" => un || x > y,
                    "uge" => un || x >= y,
                    "ult" => un || x < y,
                    "ule" => un || x <= y,
                    "une" => x != y,
                    "true" => true,
                    _ => false,
                };
                set!(dst, Val::C(r as u64))
            }
            Inst::CmpXchg {
                dst,
                ptr,
                cmp,
                new,
                ty,
            } => {
                let p = self.get(fr, ptr);
                let a = self.conc(st, &p, 64)?;
                let old = self.load_ty(st, a, *ty)?;
                let w = self.m.width(*ty);
                let c = self.get(fr, cmp);
                let n = self.get(fr, new);
                let eq = vbin(Op::Eq, w, &old, &c);
                let k = self.conc(st, &eq, 1)?;
                if k != 0 {
                    self.store_ty(st, a, *ty, &n)?;
                }
                set!(dst, Val::A(vec![old, Val::C(k)].into()))
            }
            Inst::Rmw {
                dst,
                op,
                ptr,
                val,
                ty,
            } => {
                let p = self.get(fr, ptr);
                let a = self.conc(st, &p, 64)?;
                let old = self.load_ty(st, a, *ty)?;
                let w = self.m.width(*ty);
                let v = self.get(fr, val);
                let n = match op.as_str() {
                    "xchg" => v,
                    "add" => vbin(Op::Add, w, &old, &v),
                    "sub" => vbin(Op::Sub, w, &old, &v),
                    "and" => vbin(Op::And, w, &old, &v),
                    "or" => vbin(Op::Or, w, &old, &v),
                    "xor" => vbin(Op::Xor, w, &old, &v),
                    "umax" => {
                        let c = vbin(Op::Ult, w, &old, &v);
                        vite(&c, &v, &old, w)
                    }
                    "umin" => {
                        let c = vbin(Op::Ult, w, &v, &old);
                        vite(&c, &v, &old, w)
                    }
                    _ => return Err(Need::Err(format!("atomicrmw {}", op))),
                };
                self.store_ty(st, a, *ty, &n)?;
                set!(dst, old)
            }
            Inst::Unreachable => Err(Need::Panic("unreachable executed".into())),
            Inst::Unsupported(s) => Err(Need::Err(format!("unsupported instruction: {}", s))),
            Inst::Intr {
                dst,
                name,
                args,
                ret,
            } => {
                let mut av = Vec::with_capacity(args.len());
                for (o, t) in args {
                    av.push((self.get(fr, o), *t));
                }
                let name: Rc<str> = name.clone();
                let r = self.intrinsic(st, &name, &av, *ret)?;
                let fr = Rc::make_mut(st.frames.last_mut().unwrap());
                if *dst != u32::MAX {
                    fr.regs[*dst as usize] = r;
                }
                fr.ip += 1;
                Ok(())
            }
            Inst::Call {
                dst,
                callee,
                args,
                ret,
                to,
                ..
            } => {
                let cv = self.get(fr, callee);
                let ca = self.conc(st, &cv, 64)?;
                if ca < FN_BASE || (ca - FN_BASE) / 16 >= self.m.funcs.len() as u64 {
                    return Err(Need::Panic(format!("call through bad pointer {:#x}", ca)));
                }
                let idx = ((ca - FN_BASE) / 16) as u32;
                let mut av = Vec::with_capacity(args.len());
                for (o, t) in args {
                    av.push((self.get(fr, o), *t));
                }
                self.call(st, idx, av, *dst, *to, *ret)
            }
        }
    }

    fn lanes<'a>(&self, v: &'a Val) -> std::borrow::Cow<'a, [Val]> {
        match v {
            Val::A(x) => std::borrow::Cow::Borrowed(&x[..]),
            _ => std::borrow::Cow::Owned(vec![Val::C(0); 64]),
        }
    }

    fn insert(&self, base: &Val, ty: TyId, path: &[u32], x: Val) -> Val {
        if path.is_empty() {
            return x;
        }
        let (n, sub): (usize, Box<dyn Fn(usize) -> TyId>) = match &self.m.t(ty).k {
            TyK::Struct(f, _) => {
                let f = f.clone();
                (f.len(), Box::new(move |i| f[i]))
            }
            TyK::Array(n, e) => {
                let e = *e;
                (*n as usize, Box::new(move |_| e))
            }
            _ => (0, Box::new(|_| 0)),
        };
        let mut v: Vec<Val> = match base {
            Val::A(q) => q.to_vec(),
            _ => vec![Val::U; n],
        };
        let i = path[0] as usize;
        v[i] = self.insert(&v[i].clone(), sub(i), &path[1..], x);
        Val::A(v.into())
    }

    fn fbin(&self, st: &State, op: FOp, ty: TyId, a: &Val, b: &Val) -> R<Val> {
        let w = self.m.width(ty);
        let (x, y) = (self.conc(st, a, w)?, self.conc(st, b, w)?);
        if w == 32 {
            let (p, q) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
            let r = match op {
                FOp::Add => p + q,
                FOp::Sub => p - q,
                FOp::Mul => p * q,
                FOp::Div => p / q,
                FOp::Rem => p % q,
            };
            Ok(Val::C(r.to_bits() as u64))
        } else {
            let (p, q) = (f64::from_bits(x), f64::from_bits(y));
            let r = match op {
                FOp::Add => p + q,
                FOp::Sub => p - q,
                FOp::Mul => p * q,
                FOp::Div => p / q,
                FOp::Rem => p % q,
            };
            Ok(Val::C(r.to_bits()))
        }
    }

    fn to_bits(&self, ty: TyId, v: &Val) -> (Val, u8) {
        match self.m.vec(ty) {
            Some((n, e)) => {
                let ew = self.m.width(e);
                let l = self.lanes(v);
                let mut acc = l[0].clone();
                if matches!(acc, Val::U) {
                    acc = Val::C(0);
                }
                let mut w = ew;
                for i in 1..n as usize {
                    let x = if matches!(l[i], Val::U) { Val::C(0) } else { l[i].clone() };
                    acc = vconcat(&x, ew, &acc, w);
                    w += ew;
                }
                (acc, w)
            }
            None => (v.clone(), self.m.width(ty)),
        }
    }
    fn from_bits(&self, ty: TyId, v: Val, w: u8) -> Val {
        match self.m.vec(ty) {
            Some((n, e)) => {
                let ew = self.m.width(e);
                let o: Vec<Val> = (0..n)
                    .map(|i| vextract(&v, w, (i * ew as u32) as u8, ew))
                    .collect();
                Val::A(o.into())
            }
            None => v,
        }
    }

    fn cast(&self, st: &State, op: Cast, from: TyId, to: TyId, v: &Val) -> R<Val> {
        if op == Cast::Bit {
            if self.m.vec(from).is_none() && self.m.vec(to).is_none() {
                return Ok(v.clone());
            }
            let (b, w) = self.to_bits(from, v);
            return Ok(self.from_bits(to, b, w));
        }
        if let (Some((_, fe)), Some((_, te))) = (self.m.vec(from), self.m.vec(to)) {
            let l = self.lanes(v);
            let n = self.m.vec(to).unwrap().0 as usize;
            let mut o = vec![];
            for x in l.iter().take(n) {
                o.push(self.cast(st, op, fe, te, x)?);
            }
            return Ok(Val::A(o.into()));
        }
        let (fw, tw) = (self.m.width(from), self.m.width(to));
        Ok(match op {
            Cast::Trunc => vtrunc(v, fw, tw),
            Cast::ZExt => {
                let v = if matches!(v, Val::U) { Val::C(0) } else { v.clone() };
                vzext(&v, fw, tw)
            }
            Cast::SExt => vsext(v, fw, tw),
            Cast::Bit => unreachable!(),
            Cast::SiToFp | Cast::UiToFp => {
                let k: u128 = match as_const(v) {
                    Some(k) => k,
                    None => self.conc(st, v, fw)? as u128,
                };
                if tw == 32 {
                    let f = if op == Cast::SiToFp { sx128(k, fw) as f32 } else { k as f32 };
                    Val::C(f.to_bits() as u64)
                } else {
                    let f = if op == Cast::SiToFp { sx128(k, fw) as f64 } else { k as f64 };
                    Val::C(f.to_bits())
                }
            }
            Cast::FpToSi | Cast::FpToUi => {
                let k = self.conc(st, v, fw)?;
                let f = if fw == 32 { f32::from_bits(k as u32) as f64 } else { f64::from_bits(k) };
                let r = if op == Cast::FpToSi { (f as i128) as u128 } else { f as u128 };
                kval(tw, r & mask(tw))
            }
            Cast::FpExt => {
                let k = self.conc(st, v, fw)?;
                if tw == 64 {
                    Val::C((f32::from_bits(k as u32) as f64).to_bits())
                } else {
                    return Err(Need::Err("fpext".into()));
                }
            }
            Cast::FpTrunc => {
                let k = self.conc(st, v, fw)?;
                Val::C((f64::from_bits(k) as f32).to_bits() as u64)
            }
        })
    }

    // ------------------------------------------------------------ calls

    fn native(&mut self, idx: u32) -> Nat {
        if let Some(n) = self.natives.get(&idx) {
            return *n;
        }
        let d = &self.m.funcs[idx as usize];
        let name: &str = &d.name;
        let n = match name {
            "__sym_byte" => Nat::SymByte,
            "__sym_u16" => Nat::SymU16,
            "__sym_u32" => Nat::SymU32,
            "__sym_u64" => Nat::SymU64,
            "__sym_assume" => Nat::Assume,
            "__sym_assert" => Nat::Assert,
            "__sym_cover" => Nat::Cover,
            "__sym_observe" => Nat::Observe,
            "__sym_log" => Nat::Log,
            "__sym_concrete" => Nat::Concrete,
            "__sym_param" => Nat::Param,
            "__sym_is_symbolic" => Nat::IsSym,
            "__engine_panic" => Nat::Panic,
            "__sym_fork" => Nat::RawFork,
            "malloc" => Nat::Malloc,
            "calloc" => Nat::Calloc,
            "realloc" => Nat::Realloc,
            "free" => Nat::Free,
            "posix_memalign" => Nat::PosixMemalign,
            "memcmp" => Nat::Memcmp,
            "bcmp" => Nat::Bcmp,
            "strlen" => Nat::Strlen,
            "memcpy" | "memmove" => Nat::Memcpy,
            "memset" => Nat::Memset,
            "abort" | "_exit" | "exit" => Nat::Abort,
            "__errno_location" => Nat::Errno,
            "__cxa_thread_atexit_impl" | "pthread_mutex_init" | "pthread_mutex_lock"
            | "pthread_mutex_unlock" | "pthread_mutex_destroy" | "pthread_mutexattr_init"
            | "pthread_mutexattr_settype" | "pthread_mutexattr_destroy" | "pthread_mutex_trylock"
            | "getenv" | "pthread_key_create" | "pthread_setspecific" | "pthread_self" => Nat::Zero,
            _ => {
                if d.off.is_some() {
                    Nat::Body
                } else {
                    Nat::None
                }
            }
        };
        self.natives.insert(idx, n);
        n
    }

    fn call(
        &mut self,
        st: &mut State,
        idx: u32,
        args: Vec<(Val, TyId)>,
        dst: u32,
        to: u32,
        ret: TyId,
    ) -> R<()> {
        let mut idx = idx;
        let mut nat = self.native(idx);
        if nat == Nat::None {
            let nm = format!("model_{}", self.m.funcs[idx as usize].name);
            if let Some(i) = self.m.fmap.get(nm.as_str()) {
                idx = *i;
                nat = Nat::Body;
            } else {
                return Err(Need::Err(format!(
                    "unmodelled external function {}",
                    self.m.funcs[idx as usize].name
                )));
            }
        }
        if nat != Nat::Body {
            let r = self.native_call(st, nat, &args)?;
            self.finish_call(st, dst, to, r);
            return Ok(());
        }
        self.rep.funcs.insert(idx);
        if self.verbose {
            *self.prof.entry(idx).or_insert(0) += 1;
        }
        let f = match self.m.func(idx) {
            Some(f) => f,
            None => return Err(Need::Err("no body".into())),
        };
        if st.frames.len() > 2000 {
            return Err(Need::Panic("call stack too deep".into()));
        }
        let sp0 = st.sp;
        let mut va = 0;
        if f.vararg {
            va = (st.sp + 15) & !15;
            let mut p = va;
            for (v, t) in args.iter().skip(f.params.len()) {
                let w = self.m.width(*t);
                let v64 = if w < 64 { vzext(v, w, 64) } else { v.clone() };
                st.mem.store(p, 8, &v64);
                p += 8;
            }
            st.sp = p + 32;
        }
        let mut regs = vec![Val::U; f.nregs as usize];
        for (i, p) in f.params.iter().enumerate() {
            if let Some((v, _)) = args.get(i) {
                regs[*p as usize] = v.clone();
            }
        }
        let fr = Frame {
            func: f,
            regs,
            blk: 0,
            ip: 0,
            sp: sp0,
            ret_dst: dst,
            ret_to: to,
            va,
        };
        if self.trace {
            eprintln!("{}{}", " ".repeat(st.frames.len()), pretty(&fr.func.name));
        }
        if self.merge[idx as usize] {
            let depth = st.frames.len();
            let mut s = st.clone();
            s.frames.push(Rc::new(fr));
            // protect the caller's frame identity: merging only looks at the last frame
            let res = self.explore_merge(s, depth, ret);
            return Err(Need::Fork(res));
        }
        st.frames.push(Rc::new(fr));
        Ok(())
    }

    fn finish_call(&mut self, st: &mut State, dst: u32, to: u32, r: Val) {
        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
        if dst != u32::MAX {
            fr.regs[dst as usize] = r;
        }
        if to != u32::MAX {
            self.goto(st, to);
        } else {
            fr.ip += 1;
        }
    }

    fn native_call(&mut self, st: &mut State, nat: Nat, args: &[(Val, TyId)]) -> R<Val> {
        let a = |i: usize| args[i].0.clone();
        match nat {
            Nat::SymByte => Ok(self.new_sym(st, 8)),
            Nat::SymU16 => Ok(self.new_sym(st, 16)),
            Nat::SymU32 => Ok(self.new_sym(st, 32)),
            Nat::SymU64 => Ok(self.new_sym(st, 64)),
            Nat::IsSym => Ok(Val::C(1)),
            Nat::RawFork => Ok(Val::C(0)),
            Nat::Assume => match a(0) {
                Val::C(x) => {
                    if x & 1 == 0 {
                        Err(Need::Assume)
                    } else {
                        Ok(Val::U)
                    }
                }
                Val::E(e) => match self.feasible(st, e)? {
                    None => Err(Need::Assume),
                    Some(m) => {
                        self.add(st, e, m);
                        Ok(Val::U)
                    }
                },
                _ => Err(Need::Err("assume undef".into())),
            },
            Nat::Assert => {
                let id = self.conc(st, &a(1), 32)?;
                match a(0) {
                    Val::C(x) => {
                        self.rep.asserts_concrete += 1;
                        if x & 1 == 0 {
                            self.violation(st, "assert", format!("assertion {}", id), None);
                            return Err(Need::Fork(vec![]));
                        }
                        Ok(Val::U)
                    }
                    Val::E(e) => {
                        self.rep.asserts_symbolic += 1;
                        let ne = not(e);
                        // decided by the solver over the relevant path condition
                        let (cs, sup) = slice(st, ne);
                        if self.proved.contains(&cs) {
                            return Ok(Val::U);
                        }
                        match self.z3.check(&cs, sup) {
                            Answer::Unsat => {
                                if self.proved.len() > 400_000 {
                                    self.proved.clear();
                                }
                                self.proved.insert(cs);
                                Ok(Val::U)
                            }
                            Answer::Unknown => Err(Need::Err("solver unknown at assertion".into())),
                            Answer::Sat(_) => {
                                self.violation(st, "assert", format!("assertion {}", id), Some(ne));
                                match self.feasible(st, e)? {
                                    None => Err(Need::Fork(vec![])),
                                    Some(m) => {
                                        self.add(st, e, m);
                                        Ok(Val::U)
                                    }
                                }
                            }
                        }
                    }
                    _ => Err(Need::Err("assert undef".into())),
                }
            }
            Nat::Cover => {
                let id = self.conc(st, &a(0), 32)?;
                st.covers |= 1 << (id & 63);
                Ok(Val::U)
            }
            Nat::Observe => {
                let p = self.conc(st, &a(0), 64)?;
                let n = self.conc(st, &a(1), 64)?;
                let o = Rc::make_mut(&mut st.obs);
                for i in 0..n {
                    o.push(st.mem.byte_val(p + i));
                }
                Ok(Val::U)
            }
            Nat::Log => {
                if self.verbose {
                    let p = self.conc(st, &a(0), 64)?;
                    let n = self.conc(st, &a(1), 64)?;
                    let mut s = String::new();
                    let mut memo = FxMap::default();
                    for i in 0..n {
                        match st.mem.byte_val(p + i) {
                            Val::C(c) => s.push(c as u8 as char),
                            Val::E(e) => {
                                s.push('<');
                                s.push(eval(e, &st.model, &mut memo) as u8 as char);
                                s.push('>');
                            }
                            _ => s.push('?'),
                        }
                    }
                    eprintln!("LOG: {}", s);
                }
                Ok(Val::U)
            }
            Nat::Param => {
                let i = self.conc(st, &a(0), 32)?;
                Ok(Val::C(*self.params.get(i as usize).unwrap_or(&0)))
            }
            Nat::Concrete => Ok(Val::C(self.conc(st, &a(0), 64)?)),
            Nat::Panic => {
                // args: message ptr/args, location ptr
                let loc = match a(args.len() - 1) {
                    Val::C(l) if st.mem.valid(l, 24) => {
                        let p = st.mem.load(l, 8);
                        let n = st.mem.load(l + 8, 8);
                        let line = st.mem.load(l + 16, 4);
                        let col = st.mem.load(l + 20, 4);
                        match (p, n, line, col) {
                            (Val::C(p), Val::C(n), Val::C(li), Val::C(c)) if n < 4096 && st.mem.valid(p, n) => {
                                let f = String::from_utf8_lossy(&st.mem.read_conc(p, n as usize)).into_owned();
                                format!("{}:{}:{}", f, li, c)
                            }
                            _ => "?".into(),
                        }
                    }
                    _ => "?".into(),
                };
                Err(Need::Panic(format!("panic at {}", loc)))
            }
            Nat::Malloc => {
                let n = self.conc(st, &a(0), 64)?;
                if n > (64 << 20) {
                    return Ok(Val::C(0));
                }
                Ok(Val::C(st.mem.alloc(n, 16)))
            }
            Nat::Calloc => {
                let n = self.conc(st, &a(0), 64)?;
                let m = self.conc(st, &a(1), 64)?;
                if n.saturating_mul(m) > (64 << 20) {
                    return Ok(Val::C(0));
                }
                Ok(Val::C(st.mem.alloc(n * m, 16)))
            }
            Nat::Realloc => {
                let p = self.conc(st, &a(0), 64)?;
                let n = self.conc(st, &a(1), 64)?;
                if n > (64 << 20) {
                    return Ok(Val::C(0));
                }
                let q = st.mem.alloc(n, 16);
                if p != 0 {
                    let old = st.mem.alloc_size(p);
                    st.mem.copy(q, p, old.min(n));
                }
                Ok(Val::C(q))
            }
            Nat::Free => Ok(Val::U),
            Nat::PosixMemalign => {
                let out = self.conc(st, &a(0), 64)?;
                let al = self.conc(st, &a(1), 64)?;
                let n = self.conc(st, &a(2), 64)?;
                let p = st.mem.alloc(n, al);
                st.mem.store(out, 8, &Val::C(p));
                Ok(Val::C(0))
            }
            Nat::Memcmp | Nat::Bcmp => {
                let p = self.conc(st, &a(0), 64)?;
                let q = self.conc(st, &a(1), 64)?;
                let n = self.conc(st, &a(2), 64)?;
                self.check_addr(st, p, n)?;
                self.check_addr(st, q, n)?;
                if nat == Nat::Bcmp {
                    let mut eq = Val::C(1);
                    for i in 0..n {
                        let x = vbin(Op::Eq, 8, &st.mem.byte_val(p + i), &st.mem.byte_val(q + i));
                        eq = vbin(Op::And, 1, &eq, &x);
                        if let Val::C(0) = eq {
                            break;
                        }
                    }
                    return Ok(vite(&eq, &Val::C(0), &Val::C(1), 32));
                }
                let mut acc = Val::C(0);
                let mut i = n;
                // build from the end; stop early on a concrete difference when scanning from the front
                let mut m = 0;
                while m < n {
                    let (x, y) = (st.mem.byte_val(p + m), st.mem.byte_val(q + m));
                    m += 1;
                    if let (Val::C(x), Val::C(y)) = (&x, &y) {
                        if x != y {
                            break;
                        }
                    }
                }
                if m < n {
                    i = m;
                }
                while i > 0 {
                    i -= 1;
                    let (x, y) = (st.mem.byte_val(p + i), st.mem.byte_val(q + i));
                    let eq = vbin(Op::Eq, 8, &x, &y);
                    let lt = vbin(Op::Ult, 8, &x, &y);
                    let d = vite(&lt, &Val::C(0xffff_ffff), &Val::C(1), 32);
                    acc = vite(&eq, &acc, &d, 32);
                }
                Ok(acc)
            }
            Nat::Strlen => {
                let p = self.conc(st, &a(0), 64)?;
                let mut n = 0;
                loop {
                    self.check_addr(st, p + n, 1)?;
                    let b = st.mem.byte_val(p + n);
                    match b {
                        Val::C(0) => return Ok(Val::C(n)),
                        Val::C(_) => n += 1,
                        Val::E(e) => {
                            let z = bin(Op::Eq, 1, e, konst(8, 0));
                            if let Some(k) = st.subst.get(&z) {
                                if *k != 0 {
                                    return Ok(Val::C(n));
                                }
                                n += 1;
                                continue;
                            }
                            if node(z).op == Op::Const {
                                if node(z).k != 0 {
                                    return Ok(Val::C(n));
                                }
                                n += 1;
                                continue;
                            }
                            return Err(Need::Conc(z, 1));
                        }
                        _ => return Ok(Val::C(n)),
                    }
                }
            }
            Nat::Memcpy => {
                let d = self.conc(st, &a(0), 64)?;
                let s = self.conc(st, &a(1), 64)?;
                let n = self.conc(st, &a(2), 64)?;
                self.check_addr(st, d, n)?;
                self.check_addr(st, s, n)?;
                st.mem.copy(d, s, n);
                Ok(Val::C(d))
            }
            Nat::Memset => {
                let d = self.conc(st, &a(0), 64)?;
                let n = self.conc(st, &a(2), 64)?;
                self.check_addr(st, d, n)?;
                let v = vtrunc(&a(1), 32, 8);
                st.mem.set(d, &v, n);
                Ok(Val::C(d))
            }
            Nat::Abort => Err(Need::Panic("abort".into())),
            Nat::Zero => Ok(Val::C(0)),
            Nat::Errno => Ok(Val::C(STACK + 16)),
            Nat::None | Nat::Body => unreachable!(),
        }
    }

    fn intrinsic(&mut self, st: &mut State, name: &str, args: &[(Val, TyId)], ret: TyId) -> R<Val> {
        // vector versions: lane-wise for pure integer intrinsics
        if let Some((n, e)) = self.m.vec(ret) {
            let pure_ = ["umin", "umax", "smin", "smax", "ctpop", "ctlz", "cttz", "abs", "fshl", "fshr", "usub.sat", "uadd.sat", "ssub.sat", "sadd.sat", "bswap", "bitreverse"];
            let b = name.strip_prefix("llvm.").unwrap_or(name);
            if pure_.iter().any(|p| b.starts_with(p)) {
                let mut o = vec![];
                for i in 0..n as usize {
                    let mut av = vec![];
                    for (v, t) in args {
                        match self.m.vec(*t) {
                            Some((_, et)) => av.push((self.lanes(v)[i].clone(), et)),
                            None => av.push((v.clone(), *t)),
                        }
                    }
                    o.push(self.intrinsic(st, name, &av, e)?);
                }
                return Ok(Val::A(o.into()));
            }
        }
        let b = match name.strip_prefix("llvm.") {
            Some(b) => b,
            None => {
                // inline asm: only empty barriers and cpuid-like probes appear; yield zero
                return Ok(self.m.zero_val(ret));
            }
        };
        let a = |i: usize| args[i].0.clone();
        let w = self.m.width(ret);
        if b.starts_with("memcpy") || b.starts_with("memmove") {
            let n = self.conc(st, &a(2), 64)?;
            if n == 0 {
                return Ok(Val::U);
            }
            let d = self.conc(st, &a(0), 64)?;
            let s = self.conc(st, &a(1), 64)?;
            self.check_addr(st, d, n)?;
            self.check_addr(st, s, n)?;
            st.mem.copy(d, s, n);
            return Ok(Val::U);
        }
        if b.starts_with("memset") {
            let n = self.conc(st, &a(2), 64)?;
            if n == 0 {
                return Ok(Val::U);
            }
            let d = self.conc(st, &a(0), 64)?;
            self.check_addr(st, d, n)?;
            let v = a(1);
            st.mem.set(d, &v, n);
            return Ok(Val::U);
        }
        if b.contains(".with.overflow.") {
            let et = args[0].1;
            let w = self.m.width(et);
            let (x, y) = (a(0), a(1));
            let (r, o) = if b.starts_with("uadd") {
                let r = vbin(Op::Add, w, &x, &y);
                let o = vbin(Op::Ult, w, &r, &x);
                (r, o)
            } else if b.starts_with("usub") {
                (vbin(Op::Sub, w, &x, &y), vbin(Op::Ult, w, &x, &y))
            } else if b.starts_with("sadd") || b.starts_with("ssub") {
                let op = if b.starts_with("sadd") { Op::Add } else { Op::Sub };
                if w < 128 {
                    let (p, q) = (vsext(&x, w, w + 1), vsext(&y, w, w + 1));
                    let t = vbin(op, w + 1, &p, &q);
                    let r = vtrunc(&t, w + 1, w);
                    let rs = vsext(&r, w, w + 1);
                    let e = vbin(Op::Eq, w + 1, &rs, &t);
                    (r, vnot1(&e))
                } else {
                    let r = vbin(op, w, &x, &y);
                    let z = kval(128, 0);
                    let (sx, sy, sr) = (
                        vbin(Op::Slt, w, &x, &z),
                        vbin(Op::Slt, w, &y, &z),
                        vbin(Op::Slt, w, &r, &z),
                    );
                    let xy = vbin(Op::Xor, 1, &sx, &sy);
                    let xr = vbin(Op::Xor, 1, &sx, &sr);
                    let o = if op == Op::Add {
                        vbin(Op::And, 1, &vnot1(&xy), &xr)
                    } else {
                        vbin(Op::And, 1, &xy, &xr)
                    };
                    (r, o)
                }
            } else if b.starts_with("umul") || b.starts_with("smul") {
                let signed = b.starts_with("smul");
                if let (Some(p), Some(q)) = (as_const(&x), as_const(&y)) {
                    if signed {
                        let (p, q) = (sx128(p, w), sx128(q, w));
                        let (t, o1) = p.overflowing_mul(q);
                        let o = o1 || sx128((t as u128) & mask(w), w) != t;
                        (kval(w, (t as u128) & mask(w)), Val::C(o as u64))
                    } else {
                        let (t, o1) = p.overflowing_mul(q);
                        let o = o1 || t > mask(w);
                        (kval(w, t & mask(w)), Val::C(o as u64))
                    }
                } else if !signed && {
                    let (ma, mb) = (umax(id_of(w, &x)), umax(id_of(w, &y)));
                    ma.checked_mul(mb).map_or(false, |p| p <= mask(w))
                } {
                    (vbin(Op::Mul, w, &x, &y), Val::C(0))
                } else if w <= 64 {
                    let ww = w * 2;
                    let (p, q) = if signed {
                        (vsext(&x, w, ww), vsext(&y, w, ww))
                    } else {
                        (vzext(&x, w, ww), vzext(&y, w, ww))
                    };
                    let t = vbin(Op::Mul, ww, &p, &q);
                    let r = vtrunc(&t, ww, w);
                    let rs = if signed { vsext(&r, w, ww) } else { vzext(&r, w, ww) };
                    let e = vbin(Op::Eq, ww, &rs, &t);
                    (r, vnot1(&e))
                } else {
                    return Err(Need::Err("symbolic 128-bit mul overflow".into()));
                }
            } else {
                return Err(Need::Err(format!("intrinsic {}", name)));
            };
            return Ok(Val::A(vec![r, o].into()));
        }
        let head = b.split('.').next().unwrap_or("");
        match head {
            "umin" | "umax" | "smin" | "smax" => {
                let (x, y) = (a(0), a(1));
                let c = match head {
                    "umin" => vbin(Op::Ult, w, &x, &y),
                    "umax" => vbin(Op::Ult, w, &y, &x),
                    "smin" => vbin(Op::Slt, w, &x, &y),
                    _ => vbin(Op::Slt, w, &y, &x),
                };
                return Ok(vite(&c, &x, &y, w));
            }
            "abs" => {
                let x = a(0);
                let z = kval(w, 0);
                let c = vbin(Op::Slt, w, &x, &z);
                let n = vbin(Op::Sub, w, &z, &x);
                return Ok(vite(&c, &n, &x, w));
            }
            "ctpop" | "ctlz" | "cttz" | "bitreverse" => {
                let x = a(0);
                if let Some(k) = as_const(&x) {
                    let r = match head {
                        "ctpop" => k.count_ones() as u128,
                        "ctlz" => (k.leading_zeros() - (128 - w as u32)) as u128,
                        "cttz" => {
                            if k == 0 {
                                w as u128
                            } else {
                                k.trailing_zeros() as u128
                            }
                        }
                        _ => k.reverse_bits() >> (128 - w as u32),
                    };
                    return Ok(kval(w, r));
                }
                match head {
                    "ctpop" => {
                        let mut acc = kval(w, 0);
                        for i in 0..w {
                            let bt = vzext(&vextract(&x, w, i, 1), 1, w);
                            acc = vbin(Op::Add, w, &acc, &bt);
                        }
                        return Ok(acc);
                    }
                    "ctlz" => {
                        let mut acc = kval(w, w as u128);
                        for i in 0..w {
                            let bt = vextract(&x, w, i, 1);
                            acc = vite(&bt, &kval(w, (w - 1 - i) as u128), &acc, w);
                        }
                        return Ok(acc);
                    }
                    "cttz" => {
                        let mut acc = kval(w, w as u128);
                        for i in (0..w).rev() {
                            let bt = vextract(&x, w, i, 1);
                            acc = vite(&bt, &kval(w, i as u128), &acc, w);
                        }
                        return Ok(acc);
                    }
                    _ => {
                        let mut acc = vextract(&x, w, 0, 1);
                        for i in 1..w {
                            acc = vconcat(&acc, i, &vextract(&x, w, i, 1), 1);
                        }
                        return Ok(acc);
                    }
                }
            }
            "bswap" => {
                let x = a(0);
                let n = w / 8;
                let mut acc = vextract(&x, w, 0, 8);
                for i in 1..n {
                    acc = vconcat(&acc, i * 8, &vextract(&x, w, i * 8, 8), 8);
                }
                return Ok(acc);
            }
            "fshl" | "fshr" => {
                let (x, y, s) = (a(0), a(1), a(2));
                let k = match as_const(&s) {
                    Some(k) => k as u64,
                    None => self.conc(st, &s, w)?,
                } % w as u64;
                let k = if head == "fshr" { w as u64 - k } else { k };
                let k = k % (2 * w as u64);
                // concat(x,y) << k, take high
                if k == 0 {
                    return Ok(x);
                }
                if k == w as u64 {
                    return Ok(y);
                }
                let k = k as u8;
                let hi = vtrunc(&x, w, w - k);
                let lo = vextract(&y, w, w - k, k);
                return Ok(vconcat(&hi, w - k, &lo, k));
            }
            "ucmp" | "scmp" => {
                let ow = self.m.width(args[0].1);
                let op = if head == "ucmp" { Op::Ult } else { Op::Slt };
                let lt = vbin(op, ow, &a(0), &a(1));
                let gt = vbin(op, ow, &a(1), &a(0));
                let x = vite(&gt, &Val::C(1), &Val::C(0), w);
                return Ok(vite(&lt, &Val::C(mask64(w)), &x, w));
            }
            "uadd" | "usub" | "sadd" | "ssub" => {
                // saturating
                let (x, y) = (a(0), a(1));
                if head == "usub" {
                    let c = vbin(Op::Ult, w, &x, &y);
                    let r = vbin(Op::Sub, w, &x, &y);
                    return Ok(vite(&c, &kval(w, 0), &r, w));
                }
                if head == "uadd" {
                    let r = vbin(Op::Add, w, &x, &y);
                    let c = vbin(Op::Ult, w, &r, &x);
                    return Ok(vite(&c, &kval(w, mask(w)), &r, w));
                }
                if w < 128 {
                    let op = if head == "sadd" { Op::Add } else { Op::Sub };
                    let (p, q) = (vsext(&x, w, w + 1), vsext(&y, w, w + 1));
                    let t = vbin(op, w + 1, &p, &q);
                    let max = kval(w + 1, mask(w - 1));
                    let min = kval(w + 1, mask(w + 1) ^ mask(w - 1));
                    let hi = vbin(Op::Slt, w + 1, &max, &t);
                    let lo = vbin(Op::Slt, w + 1, &t, &min);
                    let r = vite(&hi, &max, &t, w + 1);
                    let r = vite(&lo, &min, &r, w + 1);
                    return Ok(vtrunc(&r, w + 1, w));
                }
            }
            "expect" => return Ok(a(0)),
            "threadlocal" => return Ok(a(0)),
            "launder" | "strip" => return Ok(a(0)),
            "trap" | "debugtrap" | "ubsantrap" => return Err(Need::Panic("trap".into())),
            "is" => return Ok(Val::C(0)),
            "objectsize" => return Ok(Val::C(u64::MAX)),
            "stacksave" => return Ok(Val::C(st.sp)),
            "stackrestore" => return Ok(Val::U),
            "ptrmask" => return Ok(vbin(Op::And, 64, &a(0), &a(1))),
            "x86" => {
                if b.contains("pmovmskb") {
                    let v = a(0);
                    let l = self.lanes(&v);
                    let mut acc = vextract(&l[0], 8, 7, 1);
                    for i in 1..l.len().min(16) {
                        acc = vconcat(&vextract(&l[i], 8, 7, 1), 1, &acc, i as u8);
                    }
                    return Ok(vzext(&acc, 16, 32));
                }
                if b.contains("pause") {
                    return Ok(Val::U);
                }
            }
            "vector" => {
                let v = a(0);
                if let Some((_, e)) = self.m.vec(args[0].1) {
                    let ew = self.m.width(e);
                    let op = b.split('.').nth(2).unwrap_or("");
                    let l = self.lanes(&v);
                    let mut acc = l[0].clone();
                    for x in l[1..].iter() {
                        acc = match op {
                            "or" => vbin(Op::Or, ew, &acc, x),
                            "and" => vbin(Op::And, ew, &acc, x),
                            "xor" => vbin(Op::Xor, ew, &acc, x),
                            "add" => vbin(Op::Add, ew, &acc, x),
                            "mul" => vbin(Op::Mul, ew, &acc, x),
                            "umax" => {
                                let c = vbin(Op::Ult, ew, &acc, x);
                                vite(&c, x, &acc, ew)
                            }
                            "umin" => {
                                let c = vbin(Op::Ult, ew, x, &acc);
                                vite(&c, x, &acc, ew)
                            }
                            _ => return Err(Need::Err(format!("intrinsic {}", name))),
                        };
                    }
                    return Ok(acc);
                }
            }
            "va_start" => {
                let p = self.conc(st, &a(0), 64)?;
                let va = st.frames.last().unwrap().va;
                st.mem.store(p, 4, &Val::C(48));
                st.mem.store(p + 4, 4, &Val::C(176));
                st.mem.store(p + 8, 8, &Val::C(va));
                st.mem.store(p + 16, 8, &Val::C(va));
                return Ok(Val::U);
            }
            "va_end" => return Ok(Val::U),
            "va_copy" => {
                let d = self.conc(st, &a(0), 64)?;
                let s = self.conc(st, &a(1), 64)?;
                st.mem.copy(d, s, 24);
                return Ok(Val::U);
            }
            "fabs" => {
                return Ok(vbin(Op::And, w, &a(0), &Val::C(mask64(w) >> 1)));
            }
            "floor" | "ceil" | "trunc" | "rint" | "sqrt" | "round" | "roundeven" | "nearbyint" => {
                let k = self.conc(st, &a(0), w)?;
                let f = |x: f64| match head {
                    "floor" => x.floor(),
                    "ceil" => x.ceil(),
                    "trunc" => x.trunc(),
                    "sqrt" => x.sqrt(),
                    "round" => x.round(),
                    _ => x.round_ties_even(),
                };
                return Ok(if w == 32 {
                    Val::C((f(f32::from_bits(k as u32) as f64) as f32).to_bits() as u64)
                } else {
                    Val::C(f(f64::from_bits(k)).to_bits())
                });
            }
            "copysign" => {
                let s = 1u64 << (w - 1);
                let x = vbin(Op::And, w, &a(0), &Val::C(mask64(w) >> 1));
                let y = vbin(Op::And, w, &a(1), &Val::C(s));
                return Ok(vbin(Op::Or, w, &x, &y));
            }
            "fptosi" | "fptoui" => {
                let fw = self.m.width(args[0].1);
                let k = self.conc(st, &a(0), fw)?;
                let f = if fw == 32 { f32::from_bits(k as u32) as f64 } else { f64::from_bits(k) };
                let r: u128 = if head == "fptosi" {
                    let max = (mask(w) >> 1) as i128;
                    let min = -max - 1;
                    if f.is_nan() {
                        0
                    } else {
                        (f as i128).clamp(min, max) as u128
                    }
                } else if f.is_nan() {
                    0
                } else {
                    (f as u128).min(mask(w))
                };
                return Ok(kval(w, r & mask(w)));
            }
            "fma" | "fmuladd" => {
                let (x, y, z) = (self.conc(st, &a(0), w)?, self.conc(st, &a(1), w)?, self.conc(st, &a(2), w)?);
                if w == 64 {
                    return Ok(Val::C(f64::from_bits(x).mul_add(f64::from_bits(y), f64::from_bits(z)).to_bits()));
                }
            }
            _ => {}
        }
        Err(Need::Err(format!("unmodelled intrinsic {}", name)))
    }
}

pub fn same(a: &Val, b: &Val) -> bool {
    match (a, b) {
        (Val::C(x), Val::C(y)) => x == y,
        (Val::E(x), Val::E(y)) => x == y,
        (Val::U, Val::U) => true,
        (Val::A(x), Val::A(y)) => {
            Rc::ptr_eq(x, y) || (x.len() == y.len() && x.iter().zip(y.iter()).all(|(p, q)| same(p, q)))
        }
        _ => false,
    }
}

fn ite_leaves(e: Id, out: &mut Vec<u64>, cap: usize) -> bool {
    let n = node(e);
    match n.op {
        Op::Const => {
            out.push(n.k as u64);
            out.len() <= cap
        }
        Op::Ite => ite_leaves(n.b, out, cap) && ite_leaves(n.c, out, cap),
        _ => false,
    }
}

/// number of known-zero low bits
/// Maximal subexpressions over a single byte variable; false if the expression has other leaves or too many parts.
fn unary_parts(e: Id, out: &mut Vec<Id>, fuel: &mut u32) -> bool {
    if *fuel == 0 {
        return false;
    }
    *fuel -= 1;
    let n = node(e);
    if n.sup == 0 {
        return true;
    }
    if unary_var(e).is_some() {
        if !out.contains(&e) {
            out.push(e);
        }
        return out.len() <= 8;
    }
    if n.op == Op::Var {
        return false;
    }
    let kids: &[Id] = match n.op {
        Op::Not | Op::ZExt | Op::SExt | Op::Extract => &[n.a],
        Op::Ite => &[n.a, n.b, n.c],
        _ => &[n.a, n.b],
    };
    kids.iter().all(|c| unary_parts(*c, out, fuel))
}
/// The value of a condition on one byte, when the remaining values of that byte decide it.
fn decided(st: &State, e: Id) -> Option<bool> {
    let v = unary_var(e)?;
    let t = truth(e);
    let d = match st.doms.get(v) {
        Some(Some(d)) => **d,
        _ => return None,
    };
    if (0..4).all(|i| d[i] & t[i] == 0) {
        return Some(false);
    }
    if (0..4).all(|i| d[i] & !t[i] == 0) {
        return Some(true);
    }
    None
}
/// The constraints of the path that matter for `c`, and `c`.  The constraints on single bytes are given as value sets.
fn slice(st: &State, c: Id) -> (Vec<Id>, u128) {
    let mut sup = node(c).sup;
    let mut used = vec![false; st.pc.len()];
    let mut cs: Vec<Id> = vec![];
    loop {
        let mut ch = false;
        for (i, p) in st.pc.iter().enumerate() {
            if !used[i] {
                let s = node(*p).sup;
                if s & sup != 0 {
                    used[i] = true;
                    cs.push(*p);
                    if s | sup != sup {
                        sup |= s;
                        ch = true;
                    }
                }
            }
        }
        if !ch {
            break;
        }
    }
    cs.retain(|p| unary_var(*p).is_none());
    // bytes with a single remaining value are substituted
    let mut single = 0u128;
    for v in 0..128 {
        if sup >> v & 1 == 1 {
            if let Some(Some(d)) = st.doms.get(v) {
                if d.iter().map(|x| x.count_ones()).sum::<u32>() == 1 {
                    single |= 1 << v;
                }
            }
        }
    }
    let mut c = c;
    if single != 0 {
        let mut memo = FxMap::default();
        c = fix(c, single, &st.model, &mut memo);
        let mut out = vec![];
        for p in cs.iter() {
            let q = fix(*p, single, &st.model, &mut memo);
            if node(q).op != Op::Const {
                out.push(q);
            }
        }
        cs = out;
    }
    for v in 0..128 {
        if sup >> v & 1 == 1 && single >> v & 1 == 0 {
            if let Some(Some(d)) = st.doms.get(v) {
                let e = dom_expr(v, d);
                if node(e).op != Op::Const {
                    cs.push(e);
                }
            }
        }
    }
    cs.sort();
    cs.dedup();
    cs.push(match unary_var(c) {
        Some(v) => dom_expr(v, &truth(c)),
        None => c,
    });
    (cs, sup & !single)
}
fn tz(e: Id) -> u32 {
    let n = node(e);
    match n.op {
        Op::Const => {
            if n.k == 0 {
                n.w as u32
            } else {
                n.k.trailing_zeros()
            }
        }
        Op::Concat => {
            let l = tz(n.b);
            if l == node(n.b).w as u32 {
                l + tz(n.a)
            } else {
                l
            }
        }
        Op::ZExt => {
            let l = tz(n.a);
            l
        }
        Op::Add => tz(n.a).min(tz(n.b)),
        Op::Mul => tz(n.a) + tz(n.b),
        Op::Ite => tz(n.b).min(tz(n.c)),
        _ => 0,
    }
}

/// Readable form of a v0-mangled symbol: the identifier path only.
pub fn pretty(s: &str) -> String {
    if !s.starts_with("_R") {
        return s.to_string();
    }
    let b = s.as_bytes();
    let mut i = 2;
    let mut out: Vec<String> = vec![];
    while i < b.len() {
        if b[i] == b'C' && i + 1 < b.len() && b[i + 1] == b's' {
            // crate disambiguator  Cs<base62>_
            let mut j = i + 2;
            while j < b.len() && b[j] != b'_' {
                j += 1;
            }
            i = j + 1;
            continue;
        }
        if b[i] == b'B' {
            // back reference B<base62>_
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_alphanumeric() && j - i < 5 {
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                i = j + 1;
                continue;
            }
        }
        if b[i] == b's' {
            // disambiguator s<base62>_ directly before an identifier
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_alphanumeric() && j - i < 4 {
                j += 1;
            }
            if j < b.len() && b[j] == b'_' && j + 1 < b.len() && (b[j + 1].is_ascii_digit() || b[j + 1] == b'N') {
                i = j + 1;
                continue;
            }
        }
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let mut n = 0usize;
            let mut j = i;
            while j < b.len() && b[j].is_ascii_digit() {
                n = n * 10 + (b[j] - b'0') as usize;
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                j += 1;
            }
            if n > 0 && j + n <= b.len() {
                out.push(s[j..j + n].to_string());
                i = j + n;
                continue;
            }
        }
        i += 1;
    }
    out.join("::")
}

/// A pattern is a list of identifiers joined by "::" that must occur consecutively in the symbol.
pub fn name_match(sym: &str, pat: &str) -> bool {
    if !pat.contains("::") {
        return sym == pat || (pat.len() > 3 && sym.contains(pat));
    }
    let p = pretty(sym);
    if let Some(r) = pat.strip_prefix('^') {
        return p == r || p.starts_with(&format!("{}::", r));
    }
    p == *pat || p.starts_with(&format!("{}::", pat)) || p.contains(&format!("::{}::", pat)) || p.ends_with(&format!("::{}", pat))
}
