//! Path-forking symbolic executor over LLVM IR.
use crate::ir::{self, Bin, CastOp, FBin, Func, Module, Opd, Pred, Ty, I};
use crate::mem::*;
use crate::smt::{Res, Smt};
use crate::term::*;
use std::collections::BTreeMap;
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone)]
pub struct Frame {
    pub f: Rc<Func>,
    pub block: u32,
    pub ip: u32,
    pub regs: Vec<V>,
    pub allocas: Vec<u64>,
    pub ret_dst: u32,
    pub ret_normal: u32,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub mem: BTreeMap<u64, Rc<Obj>>,
    pub pc: Vec<T>,
    pub pcset: Rc<HashSet<T>>,
    pub model: Option<Rc<Model>>,
    pub symvars: Vec<u32>, // variables in call order
    pub conc: Rc<HashMap<T, u64>>,
    pub heap: u64,
    pub stack: u64,
    pub notes: Vec<(u32, V, bool)>,
    pub steps: u64,
    pub errno: u64,
}

pub enum Stop {
    Fork(T),          // re-execute the instruction under t / not t
    ForkVals(T),      // re-execute under every value of t
    Panic(String),
    Unsup(String),
    Infeasible,
}

pub struct Violation { pub kind: String, pub id: u32, pub model: Option<Vec<(u32, u128)>>, pub func: String }
pub struct PathRec { pub vals: Vec<(u32, u128)>, pub notes: Vec<(u32, u128)>, pub kind: String }

pub struct Cfg {
    pub params: Vec<u64>,
    pub max_paths: u64,
    pub max_secs: f64,
    pub max_steps: u64,
    pub fork_uitofp: u128,
    pub merge: bool,
    pub small: u64,
    pub stop_first: bool,
    pub want_paths: usize,
    pub verbose: bool,
    pub max_viol: usize,
}

pub struct Mach {
    pub m: Module,
    pub tm: Terms,
    pub smt: Smt,
    pub cfg: Cfg,
    pub globals: HashMap<u64, Rc<Obj>>, // materialised initial images
    pub gidx: BTreeMap<u64, usize>,
    pub work: Vec<State>,
    pub viol: Vec<Violation>,
    pub paths: Vec<PathRec>,
    pub n_paths: u64,
    pub n_infeasible: u64,
    pub n_panics: u64,
    pub n_asserts: u64,
    pub n_discharged: u64,
    pub n_trivial: u64,
    pub n_forks: u64,
    pub n_merges: u64,
    pub n_steps: u64,
    pub n_blocks: HashSet<(u64, u32)>,
    pub reach: BTreeMap<u32, u64>,
    pub assert_ids: BTreeMap<u32, u64>,
    pub funcs_run: HashMap<Rc<str>, u64>,
    pub unsup: Vec<String>,
    pub unresolved: Vec<String>,
    pub candidates: Vec<Violation>,
    pub start: Instant,
    pub cache: HashMap<(Vec<T>, T), bool>,
    pub cache_hits: u64,
    pub model_hits: u64,
    pub in_region: u32,
    pub fork_sites: HashMap<(Rc<str>, u32), u64>,
}

pub enum Feas { No, Yes(Rc<Model>), Maybe }

type R<X> = Result<X, Stop>;

fn unsup<X>(s: impl Into<String>) -> R<X> { Err(Stop::Unsup(s.into())) }

impl Mach {
    pub fn new(m: Module, cfg: Cfg, smt: Smt) -> Mach {
        let gidx = m.globals.iter().enumerate().map(|(i, g)| (g.addr, i)).collect();
        Mach {
            m, tm: Terms::new(), smt, cfg, globals: HashMap::default(), gidx, work: vec![], viol: vec![], paths: vec![], n_paths: 0, n_infeasible: 0, n_panics: 0,
            n_asserts: 0, n_discharged: 0, n_trivial: 0, n_forks: 0, n_merges: 0, n_steps: 0, n_blocks: HashSet::default(), reach: BTreeMap::new(), assert_ids: BTreeMap::new(), funcs_run: HashMap::default(),
            unsup: vec![], unresolved: vec![], candidates: vec![], start: Instant::now(), cache: HashMap::default(), cache_hits: 0, model_hits: 0, in_region: 0, fork_sites: HashMap::default(),
        }
    }

    // ------------------------------------------------------------------ values
    pub fn term(&mut self, v: &V, w: u32) -> T {
        match v {
            V::I(k) => self.tm.c(*k as u128, w),
            V::T(t) => {
                if self.tm.is_fp(*t) { self.tm.fbits(*t) } else { let t = *t; assert_eq!(self.tm.w(t), w); t }
            }
            V::F(b) => self.tm.c(*b as u128, 64),
            V::Undef => self.tm.c(0, w),
            V::Agg(_) => panic!("aggregate as scalar"),
        }
    }
    fn mkv(&self, t: T) -> V {
        let w = self.tm.w(t);
        if w == 0 { return match self.tm.fval(t) { Some(f) => V::F(f.to_bits()), None => V::T(t) }; }
        if w <= 64 { if let Some(k) = self.tm.cval(t) { return V::I(k as u64); } }
        V::T(t)
    }
    fn fterm(&mut self, v: &V) -> T {
        match v {
            V::F(b) => self.tm.fc(f64::from_bits(*b)),
            V::I(b) => self.tm.fc(f64::from_bits(*b)),
            V::T(t) => { let t = *t; if self.tm.is_fp(t) { t } else { self.tm.ffrombits(t) } }
            _ => self.tm.fc(0.0),
        }
    }
    fn opd(&mut self, st: &State, o: &Opd) -> V {
        match o {
            Opd::Reg(r) => st.frames.last().unwrap().regs[*r as usize].clone(),
            Opd::Int(k) => V::I(*k),
            Opd::Wide(k, w) => V::T(self.tm.c(*k, *w)),
            Opd::F(b) => V::F(*b),
            Opd::Glob(a) => V::I(*a),
            Opd::Agg(v) => { let x: Vec<V> = v.iter().map(|o| self.opd(st, o)).collect(); V::Agg(Rc::new(x)) }
            Opd::Zero(t) => self.zero(t),
            Opd::Undef(_) => V::Undef,
        }
    }
    fn zero(&mut self, t: &Ty) -> V {
        match t {
            Ty::Int(w) if *w <= 64 => V::I(0),
            Ty::Int(w) => V::T(self.tm.c(0, *w)),
            Ty::F64 => V::F(0),
            Ty::Ptr => V::I(0),
            Ty::Arr(n, t) | Ty::Vec(n, t) => { let z = self.zero(t); V::Agg(Rc::new(vec![z; *n as usize])) }
            Ty::Struct(f, _) => { let v = f.iter().map(|t| self.zero(t)).collect(); V::Agg(Rc::new(v)) }
            _ => V::I(0),
        }
    }

    // ------------------------------------------------------------------ solver
    fn lookup_pc(&self, st: &State, c: T) -> Option<bool> {
        if st.pcset.contains(&c) { return Some(true); }
        let n = self.tm.n(c);
        if n.op == Op::Not && st.pcset.contains(&n.a) { return Some(false); }
        None
    }
    fn not_in_pc(&mut self, st: &State, c: T) -> Option<bool> {
        if let Some(b) = self.lookup_pc(st, c) { return Some(b); }
        let n = self.tm.not(c);
        if st.pcset.contains(&n) { return Some(false); }
        None
    }
    fn slice(&mut self, st: &State, c: T) -> Vec<T> {
        let mut vars: HashSet<u64> = self.smt.avars(&mut self.tm, c).iter().cloned().collect();
        let mut used = vec![false; st.pc.len()];
        let sets: Vec<Rc<Vec<u64>>> = st.pc.iter().map(|&p| self.smt.avars(&mut self.tm, p)).collect();
        loop {
            let mut ch = false;
            for (i, s) in sets.iter().enumerate() {
                if !used[i] && s.iter().any(|v| vars.contains(v)) {
                    used[i] = true;
                    ch = true;
                    vars.extend(s.iter());
                }
            }
            if !ch { break; }
        }
        let mut r: Vec<T> = st.pc.iter().zip(used).filter(|x| x.1).map(|x| *x.0).collect();
        r.sort();
        r.dedup();
        r
    }
    fn holds(&self, m: &Model, ts: &[T]) -> bool {
        let mut memo = HashMap::default();
        ts.iter().all(|&t| self.tm.eval(t, m, &mut memo) == 1)
    }

    pub fn feasible(&mut self, st: &State, c: T) -> R<Feas> {
        if let Some(k) = self.tm.cval(c) {
            return Ok(if k == 0 { Feas::No } else { match &st.model { Some(m) => Feas::Yes(m.clone()), None => Feas::Maybe } });
        }
        match self.not_in_pc(st, c) { Some(false) => return Ok(Feas::No), Some(true) => return Ok(match &st.model { Some(m) => Feas::Yes(m.clone()), None => Feas::Maybe }), None => {} }
        if let Some(m) = &st.model {
            let mut memo = HashMap::default();
            if self.tm.eval(c, m, &mut memo) == 1 { self.model_hits += 1; return Ok(Feas::Yes(m.clone())); }
        }
        let sl = self.slice(st, c);
        let key = (sl.clone(), c);
        if let Some(false) = self.cache.get(&key) { self.cache_hits += 1; return Ok(Feas::No); }
        if self.start.elapsed().as_secs_f64() > self.cfg.max_secs * 1.2 { return unsup("budget exhausted"); }
        if self.sum_not_zero(st, c)? { self.cache.insert(key, false); return Ok(Feas::No); }
        let mut asserts = sl.clone();
        asserts.push(c);
        let mut want: Vec<u32> = vec![];
        for &a in &asserts { want.extend(self.tm.varset(a).iter()); }
        want.sort();
        want.dedup();
        let t0 = std::time::Instant::now();
        let res = self.smt.check(&mut self.tm, &asserts, &want);
        if self.cfg.verbose && t0.elapsed().as_millis() >= 20 {
            let f = st.frames.last().unwrap();
            eprintln!("SLOW {:.3} {} [{}] {} :: {}", t0.elapsed().as_secs_f64(), short(&f.f.name), f.block, asserts.len(), self.tm.show(c, 14));
        }
        match res {
            Res::Unsat => { self.cache.insert(key, false); Ok(Feas::No) }
            Res::Sat(m, _) => {
                let mut full: Model = match &st.model { Some(b) => (**b).clone(), None => HashMap::default() };
                for (k, v) in m { full.insert(k, v); }
                let mut all = st.pc.clone();
                all.push(c);
                if self.holds(&full, &all) { return Ok(Feas::Yes(Rc::new(full))); }
                if !all.iter().any(|&t| self.tm.has_fp[t as usize]) {
                    // no real model was at hand for the rest: solve everything
                    let mut want: Vec<u32> = vec![];
                    for &a in &all { want.extend(self.tm.varset(a).iter()); }
                    want.sort(); want.dedup();
                    if let Res::Sat(m, _) = self.smt.check(&mut self.tm, &all, &want) {
                        if self.holds(&m, &all) { return Ok(Feas::Yes(Rc::new(m))); }
                        match self.smt.check_fresh(&mut self.tm, &all, &want) {
                            Res::Unsat => { self.cache.insert(key, false); return Ok(Feas::No); }
                            Res::Sat(m, _) => { if self.holds(&m, &all) { return Ok(Feas::Yes(Rc::new(m))); } }
                            _ => {}
                        }
                        if self.cfg.verbose { let mut memo = HashMap::default(); for &t in &all { if self.tm.eval(t, &m, &mut memo) != 1 { eprintln!("MISMATCH term {} of {:?} model {:?}", t, all, m); let mut ks: Vec<_> = memo.iter().collect(); ks.sort(); for (k, v) in ks { let n = self.tm.n(*k); eprintln!("EV t{} = {} : {:?} w{} {} {} {} k{}", k, v, n.op, n.w, n.a as i32, n.b as i32, n.c as i32, n.k); } break; } } }
                        return unsup("solver model does not satisfy the query natively");
                    }
                }
                Ok(Feas::Maybe)
            }
            Res::Unknown(s) => { if self.cfg.verbose { eprintln!("unknown query: {}", s); } Err(Stop::Unsup(format!("solver gave no answer ({})", s))) }
        }
    }

    /// can `t` be false? Conjuncts are decided one by one. Returns the negated conjunct that can hold.
    fn refute(&mut self, st: &State, t: T) -> R<(T, Feas)> {
        let mut leaves = vec![];
        let mut stack = vec![(t, true)];
        let mut seen = HashSet::default();
        while let Some((x, pos)) = stack.pop() {
            if !seen.insert((x, pos)) { continue; }
            let n = *self.tm.n(x);
            match n.op {
                Op::And if pos && n.w == 1 => { stack.push((n.b, pos)); stack.push((n.a, pos)); }
                Op::Or if !pos && n.w == 1 => { stack.push((n.b, pos)); stack.push((n.a, pos)); }
                Op::Not if n.w == 1 => stack.push((n.a, !pos)),
                _ => leaves.push((x, pos)),
            }
        }
        let ff = self.tm.ff();
        let mut maybe = None;
        for (x, pos) in leaves {
            if pos && self.equal_by_groups(st, x)? { continue; }
            let n = if pos { self.tm.not(x) } else { x };
            match self.feasible(st, n)? {
                Feas::No => {}
                Feas::Yes(m) => return Ok((n, Feas::Yes(m))),
                Feas::Maybe => { if maybe.is_none() { maybe = Some(n); } }
            }
        }
        Ok(match maybe { Some(n) => (n, Feas::Maybe), None => (ff, Feas::No) })
    }

    /// `c` says that a linear sum is zero; it cannot be if the sum falls into parts over disjoint variables that are
    /// all non-negative and one of them is positive
    fn sum_not_zero(&mut self, st: &State, c: T) -> R<bool> {
        let n = *self.tm.n(c);
        if n.op != Op::Eq || self.tm.cval(n.b) != Some(0) { return Ok(false); }
        let w = self.tm.w(n.a);
        if w < 3 || w > 64 || !matches!(self.tm.n(n.a).op, Op::Add | Op::Ite) { return Ok(false); }
        let mut memo = HashMap::default();
        let d = self.tm.linear(n.a, w, &mut memo);
        if d.0.len() < 3 { return Ok(false); }
        let sg = |k: u128| -> i128 { sx(k, w) };
        // everything fits
        let mut reach: i128 = sg(d.1).abs();
        for (t, k) in d.0.iter() { reach = reach.saturating_add(sg(*k).abs().saturating_mul(self.tm.rng(*t).1.min(1 << 70) as i128)); }
        if reach >= 1i128 << (w - 1) {
            // judge in wider arithmetic only when the coefficients are those of the narrow one
            if reach >= 1i128 << 62 { return Ok(false); }
        }
        let w2 = 64u32;
        let groups = self.groups(&d);
        if groups.len() < 2 { return Ok(false); }
        if sg(d.1) < 0 { return Ok(false); }
        let mut positive = sg(d.1) > 0;
        // the group that the last constraint is about is the likely positive one: try it when the others are settled
        let mut cand = vec![];
        for g in groups.iter() {
            let mut s = self.tm.c(0, w2);
            let mut allpos = true;
            for (t, k) in g { if sg(*k) < 0 { allpos = false; } let kc = self.tm.c(sg(*k) as u128 & mask(w2), w2); let tw = self.tm.resize(*t, w2); let p = self.tm.mul(tw, kc); s = self.tm.add(s, p); }
            if !allpos {
                let neg = self.tm.extract(s, w2 - 1, w2 - 1);
                match self.feasible(st, neg)? { Feas::No => {} _ => return Ok(false) }
            }
            cand.push(s);
        }
        if reach >= 1i128 << (w - 1) { return Ok(false); }
        if !positive {
            let last: HashSet<u32> = st.pc.iter().rev().take(4).flat_map(|&p| self.tm.varset(p).to_vec()).collect();
            let z = self.tm.c(0, w2);
            cand.sort_by_key(|&s| !self.tm.varset(s).iter().any(|v| last.contains(v)));
            for s in cand.into_iter().take(3) {
                let e = self.tm.eq(s, z);
                if let Feas::No = self.feasible(st, e)? { positive = true; break; }
            }
        }
        Ok(positive)
    }
    /// parts of a linear sum over disjoint variables
    fn groups(&mut self, d: &Lin) -> Vec<Vec<(T, u128)>> {
        let atoms: Vec<(T, u128)> = d.0.iter().map(|(k, v)| (*k, *v)).collect();
        let mut owner: HashMap<u32, usize> = HashMap::default();
        let mut parent: Vec<usize> = (0..atoms.len()).collect();
        fn root(p: &mut Vec<usize>, mut i: usize) -> usize { while p[i] != i { p[i] = p[p[i]]; i = p[i]; } i }
        for (i, (t, _)) in atoms.iter().enumerate() {
            for &v in self.tm.varset(*t).iter() {
                match owner.get(&v) { Some(&j) => { let (r, q) = (root(&mut parent, i), root(&mut parent, j)); parent[r] = q; } None => { owner.insert(v, i); } }
            }
        }
        let mut groups: std::collections::BTreeMap<usize, Vec<(T, u128)>> = Default::default();
        for i in 0..atoms.len() { let r = root(&mut parent, i); groups.entry(r).or_default().push(atoms[i]); }
        groups.into_values().collect()
    }

    /// an equality of two linear sums holds if the difference falls into parts over disjoint variables
    /// each of which is constant, and the constants cancel
    fn equal_by_groups(&mut self, st: &State, x: T) -> R<bool> {
        let n = *self.tm.n(x);
        if n.op != Op::Eq { return Ok(false); }
        let w = self.tm.w(n.a);
        if w < 3 || w > 64 { return Ok(false); }
        let model = match &st.model { Some(m) => m.clone(), None => return Ok(false) };
        let mut memo = HashMap::default();
        let (a, b) = (self.tm.linear(n.a, w, &mut memo), self.tm.linear(n.b, w, &mut memo));
        let d = self.tm.lin_sub(&a, &b, w);
        if d.0.len() < 2 { return Ok(false); }
        let groups = self.groups(&d);
        if groups.len() < 2 && d.0.len() == a.0.len() + b.0.len() { return Ok(false); }
        let mut total = d.1;
        for g in groups.iter() {
            let mut s = self.tm.c(0, w);
            for (t, k) in g { let kc = self.tm.c(*k, w); let tw = self.tm.resize(*t, w); let p = self.tm.mul(tw, kc); s = self.tm.add(s, p); }
            let mut memo = HashMap::default();
            let k = self.tm.eval(s, &model, &mut memo);
            total = total.wrapping_add(k) & mask(w);
            let kc = self.tm.c(k, w);
            let ne = self.tm.ne(s, kc);
            match self.feasible(st, ne)? { Feas::No => {} _ => return Ok(false) }
        }
        Ok(total == 0)
    }

    fn add_pc(&mut self, st: &mut State, c: T, model: Option<Rc<Model>>) {
        if self.tm.cval(c) == Some(1) { return; }
        // split conjunctions
        let n = *self.tm.n(c);
        if n.op == Op::And && n.w == 1 {
            self.add_pc(st, n.a, model.clone());
            self.add_pc(st, n.b, model);
            return;
        }
        if !st.pcset.contains(&c) {
            st.pc.push(c);
            Rc::make_mut(&mut st.pcset).insert(c);
        }
        st.model = model;
    }

    /// look for values that make every constraint true in real arithmetic of the machine
    pub fn realise(&mut self, st: &State, extra: &[T]) -> Option<Model> {
        let mut all = st.pc.clone();
        all.extend_from_slice(extra);
        if let Some(m) = &st.model { if self.holds(m, &all) { return Some((**m).clone()); } }
        let mut want: Vec<u32> = vec![];
        for &a in &all { want.extend(self.tm.varset(a).iter()); }
        want.sort(); want.dedup();
        let (am, reals) = match self.smt.check(&mut self.tm, &all, &want) { Res::Sat(m, r) => (m, r), _ => return None };
        if self.holds(&am, &all) { return Some(am); }
        let bv: Vec<T> = all.iter().cloned().filter(|&t| !self.tm.has_fp[t as usize]).collect();
        for win in [1e-9, 1e-6, 1e-4, 1e-2, 0.1, 0.5, 1e9] {
            let mut cons = bv.clone();
            let mut wantv = want.clone();
            for (name, val) in reals.iter() {
                if let Some(i) = name.strip_prefix('s').and_then(|x| x.parse::<usize>().ok()) {
                    if win > 1e8 { continue; }
                    let c = self.sum_window(i, val * (1.0 - win), val * (1.0 + win));
                    if let Some(c) = c { cons.push(c); wantv.extend(self.tm.varset(c).iter()); }
                } else if let Some(t) = name.strip_prefix('n').and_then(|x| x.parse::<T>().ok()) {
                    if win > 1e8 { continue; }
                    let w = self.tm.w(t);
                    let lo = (val * (1.0 - win) - 0.5).max(0.0).ceil() as u128;
                    let hi = (val * (1.0 + win) + 0.5).floor() as u128;
                    let lt = self.tm.c(lo.min(mask(w)), w);
                    let ht = self.tm.c(hi.min(mask(w)), w);
                    let a = self.tm.ule(lt, t);
                    let b = self.tm.ule(t, ht);
                    cons.push(a); cons.push(b);
                    wantv.extend(self.tm.varset(a).iter());
                }
            }
            wantv.sort(); wantv.dedup();
            for _try in 0..3 {
                match self.smt.check(&mut self.tm, &cons, &wantv) {
                    Res::Sat(m, _) => {
                        if self.holds(&m, &all) { return Some(m); }
                        // ask for something else: flip one variable
                        let mut diff = self.tm.ff();
                        for &v in wantv.iter().take(64) {
                            let (name, w) = self.tm.vars[v as usize].clone();
                            let vt = self.tm.var(&name, w as u32);
                            let k = self.tm.c(m.get(&v).copied().unwrap_or(self.tm.var_default(v)), w as u32);
                            let e = self.tm.ne(vt, k);
                            diff = self.tm.or(diff, e);
                        }
                        cons.push(diff);
                    }
                    _ => break,
                }
            }
        }
        None
    }
    /// exact fixed-point bounds on a sum of table values
    fn sum_window(&mut self, i: usize, lo: f64, hi: f64) -> Option<T> {
        let leaves = self.smt.sumlist[i].0.clone();
        let frac = 64u32;
        let w = 96u32;
        let mut acc = self.tm.c(0, w);
        for l in leaves {
            let n = *self.tm.n(l);
            let t = match n.op {
                Op::FConst => { let v = f64::from_bits(n.k as u64); self.tm.c((v * 2f64.powi(frac as i32)) as u128, w) }
                Op::FTab => {
                    let tb: Vec<u128> = self.tm.ftabs[n.k as usize].iter().map(|v| (v * 2f64.powi(frac as i32)) as u128).collect();
                    let id = self.tm.table(tb);
                    self.tm.tab(n.a, id, w)
                }
                Op::FIte => {
                    let f = |s: &mut Self, x: T| s.tm.fval(x).map(|v| s.tm.c((v * 2f64.powi(frac as i32)) as u128, w));
                    let (a, b) = (f(self, n.b)?, f(self, n.c)?);
                    self.tm.ite(n.a, a, b)
                }
                _ => return None,
            };
            acc = self.tm.add(acc, t);
        }
        let lt = self.tm.c((lo.max(0.0) * 2f64.powi(frac as i32)) as u128, w);
        let ht = self.tm.c((hi * 2f64.powi(frac as i32)) as u128, w);
        let a = self.tm.ule(lt, acc);
        let b = self.tm.ule(acc, ht);
        Some(self.tm.and(a, b))
    }

    fn record_violation(&mut self, st: &State, kind: &str, id: u32, extra: &[T], model: Option<Model>) {
        let m = match model { Some(m) => Some(m), None => self.realise(st, extra) };
        let func = st.frames.iter().rev().map(|f| f.f.name.to_string()).take(4).collect::<Vec<_>>().join(" < ");
        match m {
            Some(m) => {
                let vals = st.symvars.iter().map(|&v| (self.tm.vars[v as usize].1 as u32, m.get(&v).copied().unwrap_or(self.tm.var_default(v)))).collect();
                self.viol.push(Violation { kind: kind.into(), id, model: Some(vals), func });
            }
            None => {
                self.unresolved.push(format!("{} {} in {}", kind, id, func));
                if self.candidates.len() < 12 {
                    // some input of this path: the driver tries it on the real program
                    let c = match &st.model { Some(m) if self.holds(m, &st.pc) => Some((**m).clone()), _ => if self.candidates.len() < 4 { self.realise(st, &[]) } else { None } };
                    if let Some(c) = c {
                        let vals = st.symvars.iter().map(|&v| (self.tm.vars[v as usize].1 as u32, c.get(&v).copied().unwrap_or(self.tm.var_default(v)))).collect();
                        self.candidates.push(Violation { kind: kind.into(), id, model: Some(vals), func });
                    }
                }
                if self.cfg.verbose { eprintln!("unresolved {} {}", kind, id); if std::env::var("SHOWPC").is_ok() { for &p in st.pc.iter() { eprintln!("   pc {}", self.tm.show(p, 7)); } } }
            }
        }
    }

    // ------------------------------------------------------------------ memory
    fn find(&mut self, st: &State, a: u64) -> Option<u64> {
        if let Some((&b, o)) = st.mem.range(..=a).next_back() { if a < b + o.size.max(1) || a == b + o.size { if a <= b + o.size { return Some(b); } } }
        if let Some((&b, &i)) = self.gidx.range(..=a).next_back() {
            let g = &self.m.globals[i];
            if a <= b + g.size { return Some(b); }
        }
        None
    }
    fn obj(&mut self, st: &State, b: u64) -> Rc<Obj> {
        if let Some(o) = st.mem.get(&b) { return o.clone(); }
        if let Some(o) = self.globals.get(&b) { return o.clone(); }
        let i = self.gidx[&b];
        let (size, ty) = { let g = &self.m.globals[i]; (g.size, g.ty.clone()) };
        let mut o = Obj::new(b, size, Kind::Global);
        if let Some(init) = { let g = &self.m.globals[i]; self.m.global_init(g) } { self.fill(&mut o, 0, &ty, &init); }
        let rc = Rc::new(o);
        self.globals.insert(b, rc.clone());
        rc
    }
    fn fill(&mut self, o: &mut Obj, off: u64, ty: &Ty, v: &Opd) {
        match (ty, v) {
            (_, Opd::Zero(_)) | (_, Opd::Undef(_)) => {}
            (Ty::Int(_), Opd::Int(k)) | (Ty::Int(_), Opd::Glob(k)) | (Ty::Ptr, Opd::Int(k)) | (Ty::Ptr, Opd::Glob(k)) | (Ty::F64, Opd::F(k)) => {
                let n = ty.store_size() as usize;
                o.bytes[off as usize..off as usize + n].copy_from_slice(&k.to_le_bytes()[..n]);
            }
            (Ty::Int(_), Opd::Wide(k, _)) => { let n = ty.store_size() as usize; o.bytes[off as usize..off as usize + n].copy_from_slice(&k.to_le_bytes()[..n]); }
            (Ty::F32, _) => {}
            (t, Opd::Agg(vs)) => {
                for (i, x) in vs.iter().enumerate() { let ft = t.field(i); let fo = t.field_off(i); self.fill(o, off + fo, &ft, x); }
            }
            (t, v) => panic!("fill {:?} {:?}", t, v),
        }
    }
    fn obj_mut<'b>(&mut self, st: &'b mut State, b: u64) -> &'b mut Obj {
        if !st.mem.contains_key(&b) { let o = self.obj(st, b); st.mem.insert(b, o); }
        Rc::make_mut(st.mem.get_mut(&b).unwrap())
    }
    fn alloc(&mut self, st: &mut State, size: u64, kind: Kind, align: u64) -> u64 {
        if kind == Kind::Stack {
            st.stack = ir::align_up(st.stack + 32, align.max(16));
            let a = st.stack;
            st.stack += size + 32;
            st.mem.insert(a, Rc::new(Obj::new(a, size, kind)));
            a
        } else {
            st.heap = ir::align_up(st.heap + 64, align.max(64));
            let a = st.heap;
            st.heap += size + 64;
            st.mem.insert(a, Rc::new(Obj::new(a, size, kind)));
            a
        }
    }

    /// value of a term fixed by an earlier value fork
    fn conc_of(&self, st: &State, t: T) -> Option<u64> { st.conc.get(&t).cloned() }
    fn concrete(&mut self, st: &State, v: &V, w: u32) -> R<u64> {
        match v {
            V::I(k) => Ok(*k),
            V::T(t) => {
                let _ = w;
                if let Some(k) = self.conc_of(st, *t) { return Ok(k); }
                Err(Stop::ForkVals(*t))
            }
            V::Undef => Ok(0),
            _ => unsup("concrete value expected"),
        }
    }

    /// resolve an address to (object, offset term or constant)
    fn resolve(&mut self, st: &State, p: &V, len: u64) -> R<(u64, V)> {
        match p {
            V::I(a) => {
                let a = *a;
                match self.find(st, a) {
                    Some(b) => {
                        let size = if let Some(o) = st.mem.get(&b) { o.size } else { self.m.globals[self.gidx[&b]].size };
                        if a - b + len <= size { return Ok((b, V::I(a - b))); }
                        Err(Stop::Panic(format!("out-of-bounds access of {} bytes at offset {} of a {}-byte object", len, a - b, size)))
                    }
                    None => { if len == 0 { return Ok((0, V::I(0))); } Err(Stop::Panic(format!("access to invalid address {:#x}", a))) }
                }
            }
            V::T(t) => {
                let t = *t;
                if let Some(k) = self.conc_of(st, t) { return self.resolve(st, &V::I(k), len); }
                // pick a value
                let k = self.some_value(st, t)?;
                let b = match self.find(st, k) { Some(b) => b, None => return Err(Stop::ForkVals(t)) };
                let o = self.obj(st, b);
                if o.size < len { return Err(Stop::Panic("out-of-bounds access".into())); }
                let bt = self.tm.c(b as u128, 64);
                let off = self.tm.sub(t, bt);
                let lim = self.tm.c((o.size - len + 1) as u128, 64);
                let inside = self.tm.ult(off, lim);
                if self.tm.cval(inside) == Some(1) { return Ok((b, V::T(off))); }
                let out = self.tm.not(inside);
                match self.feasible(st, out)? {
                    Feas::No => Ok((b, V::T(off))),
                    _ => Err(Stop::Fork(inside)),
                }
            }
            V::Undef => unsup("undef pointer"),
            _ => unsup("pointer"),
        }
    }
    fn some_value(&mut self, st: &State, t: T) -> R<u64> {
        let m = match &st.model { Some(m) => m.clone(), None => {
            let w = self.tm.w(t);
            // any solution of the slice
            let z = self.tm.c(0, w);
            let e = self.tm.eq(t, z);
            let ne = self.tm.not(e);
            let mut asserts = self.slice(st, ne);
            asserts.push(ne);
            let want: Vec<u32> = self.tm.varset(t).to_vec();
            let mut wantall = want.clone();
            for &a in &asserts { wantall.extend(self.tm.varset(a).iter()); }
            wantall.sort(); wantall.dedup();
            match self.smt.check(&mut self.tm, &asserts, &wantall) {
                Res::Sat(m, _) => Rc::new(m),
                Res::Unsat => return Ok(0),
                Res::Unknown(s) => return unsup(s),
            }
        } };
        let mut memo = HashMap::default();
        Ok(self.tm.eval(t, &m, &mut memo) as u64)
    }

    fn trailing_zero_bits(&self, t: T) -> u32 {
        // of an offset term
        let n = self.tm.n(t);
        match n.op {
            Op::Const => if n.k == 0 { 64 } else { n.k.trailing_zeros() },
            Op::Concat => { let l = self.trailing_zero_bits(n.b); let lw = self.tm.w(n.b); if l >= lw { lw + self.trailing_zero_bits(n.a) } else { l } }
            Op::ZExt => { let l = self.trailing_zero_bits(n.a); if l >= self.tm.w(n.a) { 64 } else { l } }
            Op::Add | Op::Or => self.trailing_zero_bits(n.a).min(self.trailing_zero_bits(n.b)),
            Op::Ite => self.trailing_zero_bits(n.b).min(self.trailing_zero_bits(n.c)),
            Op::Mul => self.trailing_zero_bits(n.a) + self.trailing_zero_bits(n.b),
            _ => 0,
        }
    }

    fn load(&mut self, st: &State, ty: &Ty, p: &V) -> R<V> {
        match ty {
            Ty::Struct(f, _) => {
                let mut v = vec![];
                for i in 0..f.len() { let q = self.padd(p, ty.field_off(i)); v.push(self.load(st, &f[i], &q)?); }
                return Ok(V::Agg(Rc::new(v)));
            }
            Ty::Arr(n, t) | Ty::Vec(n, t) => {
                let mut v = vec![];
                for i in 0..*n { let q = self.padd(p, i * t.size()); v.push(self.load(st, t, &q)?); }
                return Ok(V::Agg(Rc::new(v)));
            }
            _ => {}
        }
        let len = ty.store_size();
        if let Some((c, x, y)) = self.pointer_choice(st, p) {
            let a = self.load(st, ty, &x)?;
            let b = self.load(st, ty, &y)?;
            if let Some(v) = self.merge_v(c, &a, &b, ty) { return Ok(v); }
        }
        let (b, off) = self.resolve(st, p, len)?;
        let raw = match off {
            V::I(o) => {
                let ob = if let Some(o) = st.mem.get(&b) { o.clone() } else { self.obj(st, b) };
                match ob.read(&mut self.tm, o, len) { Ok(v) => v, Err(e) => return unsup(e) }
            }
            V::T(o) => self.read_sym(st, b, o, len, *ty == Ty::F64)?,
            _ => unreachable!(),
        };
        Ok(self.conv_loaded(raw, ty))
    }
    /// the one-bit condition that alone determines t
    fn two_valued(&self, t: T, d: u32) -> Option<T> {
        let n = *self.tm.n(t);
        if n.w == 1 && n.op != Op::Const { return Some(t); }
        if d > 8 { return None; }
        let k = |x: T| self.tm.n(x).op == Op::Const;
        match n.op {
            Op::ZExt | Op::SExt | Op::Not | Op::Neg | Op::Extract => self.two_valued(n.a, d + 1),
            Op::Ite if k(n.b) && k(n.c) => Some(n.a),
            Op::Add | Op::Mul | Op::Concat | Op::Xor => if k(n.a) { self.two_valued(n.b, d + 1) } else if k(n.b) { self.two_valued(n.a, d + 1) } else { None },
            _ => None,
        }
    }
    fn two_value(&self, t: T, c: bool) -> u128 {
        let n = *self.tm.n(t);
        let m = crate::term::mask(n.w as u32);
        if n.op == Op::Const { return n.k; }
        if n.w == 1 { return c as u128; }
        match n.op {
            Op::ZExt => self.two_value(n.a, c),
            Op::SExt => { let w = self.tm.w(n.a); let v = self.two_value(n.a, c); if v >> (w - 1) & 1 == 1 { (v | !crate::term::mask(w)) & m } else { v } }
            Op::Not => !self.two_value(n.a, c) & m,
            Op::Neg => self.two_value(n.a, c).wrapping_neg() & m,
            Op::Extract => self.two_value(n.a, c) >> n.k & m,
            Op::Ite => self.tm.n(if c { n.b } else { n.c }).k,
            Op::Add => self.two_value(n.a, c).wrapping_add(self.two_value(n.b, c)) & m,
            Op::Mul => self.two_value(n.a, c).wrapping_mul(self.two_value(n.b, c)) & m,
            Op::Xor => self.two_value(n.a, c) ^ self.two_value(n.b, c),
            Op::Concat => self.two_value(n.a, c) << self.tm.w(n.b) | self.two_value(n.b, c),
            _ => unreachable!(),
        }
    }
    /// a pointer that is one of a few constants
    fn pointer_choice(&self, st: &State, p: &V) -> Option<(T, V, V)> {
        let t = match p { V::T(t) => *t, _ => return None };
        if st.conc.contains_key(&t) { return None; }
        let n = *self.tm.n(t);
        if n.op != Op::Ite { return None; }
        fn leaves(tm: &Terms, t: T, d: u32) -> Option<u32> {
            let n = tm.n(t);
            match n.op { Op::Const => Some(1), Op::Ite if d < 6 => { let k = leaves(tm, n.b, d + 1)? + leaves(tm, n.c, d + 1)?; if k > 8 { None } else { Some(k) } } _ => None }
        }
        leaves(&self.tm, t, 0)?;
        Some((n.a, self.mkv(n.b), self.mkv(n.c)))
    }
    fn conv_loaded(&mut self, raw: V, ty: &Ty) -> V {
        match ty {
            Ty::F64 => match raw { V::I(k) => V::F(k), V::T(t) => { if self.tm.is_fp(t) { V::T(t) } else { let f = self.tm.ffrombits(t); self.mkv(f) } } v => v },
            Ty::Int(w) => match raw {
                V::I(k) => V::I(if *w < 64 { k & ((1u64 << w) - 1) } else { k }),
                V::T(t) => {
                    let t = if self.tm.is_fp(t) { self.tm.fbits(t) } else { t };
                    let t = if self.tm.w(t) != *w { self.tm.trunc(t, *w) } else { t };
                    self.mkv(t)
                }
                v => v,
            },
            _ => match raw { V::T(t) => { let t = if self.tm.is_fp(t) { self.tm.fbits(t) } else { t }; self.mkv(t) } v => v },
        }
    }
    fn padd(&mut self, p: &V, k: u64) -> V {
        if k == 0 { return p.clone(); }
        match p { V::I(a) => V::I(a.wrapping_add(k)), V::T(t) => { let c = self.tm.c(k as u128, 64); let s = self.tm.add(*t, c); self.mkv(s) } v => v.clone() }
    }

    fn slots(&mut self, ob: &Obj, off: T, len: u64) -> (u64, u64, u64) {
        // (first, last, stride)
        let tz = self.trailing_zero_bits(off).min(12);
        let stride = 1u64 << tz;
        let (lo, hi) = self.tm.rng(off);
        let max = ob.size - len;
        let hi = (hi.min(max as u128)) as u64 / stride * stride;
        let lo = ir::align_up(lo.min(max as u128) as u64, stride);
        (lo, hi, stride)
    }

    fn read_sym(&mut self, st: &State, b: u64, off: T, len: u64, fp: bool) -> R<V> {
        let ob = if let Some(o) = st.mem.get(&b) { o.clone() } else { self.obj(st, b) };
        let (lo, hi, stride) = self.slots(&ob, off, len);
        let n = (hi - lo) / stride + 1;
        if n > 300_000 { return unsup("symbolic read over too many slots"); }
        if stride < len && n > 64 { return unsup("unaligned symbolic read"); }
        let tz = stride.trailing_zeros();
        // gather
        let mut vals: Vec<T> = Vec::with_capacity(n as usize);
        let w = 8 * len as u32;
        let mut all_const = true;
        let mut o = lo;
        while o <= hi {
            let v = ob.read_base(&mut self.tm, o, len);
            let t = match v { V::I(k) => self.tm.c(k as u128, w), V::T(t) => t, _ => unreachable!() };
            let t = if fp { if self.tm.is_fp(t) { t } else { self.tm.ffrombits(t) } } else if self.tm.is_fp(t) { self.tm.fbits(t) } else { t };
            if self.tm.cval(t).is_none() && self.tm.fval(t).is_none() { all_const = false; }
            vals.push(t);
            o += stride;
        }
        let idx = self.tm.extract(off, 63, tz); // slot number (absolute)
        let idx = { let bits = 128 - (hi >> tz).leading_zeros() as u32 - 64; let bits = bits.max(1); let n = self.tm.w(idx); if bits < n { self.tm.trunc(idx, bits) } else { idx } };
        let iw = self.tm.w(idx);
        let first = vals[0];
        let mut res = if vals.iter().all(|&v| v == first) { first } else if all_const && n > 3 {
            let base = (lo >> tz) as usize;
            if fp {
                let mut tb = vec![0.0; base];
                tb.extend(vals.iter().map(|&v| self.tm.fval(v).unwrap()));
                let id = self.tm.ftable(tb);
                self.tm.ftab(idx, id)
            } else {
                let mut tb = vec![0u128; base];
                tb.extend(vals.iter().map(|&v| self.tm.cval(v).unwrap()));
                let id = self.tm.table(tb);
                self.tm.tab(idx, id, w)
            }
        } else {
            let mut cnt: HashMap<T, u32> = HashMap::default();
            for &v in &vals { *cnt.entry(v).or_insert(0) += 1; }
            let def = *cnt.iter().max_by_key(|x| (*x.1, std::cmp::Reverse(*x.0))).unwrap().0;
            let ex = vals.iter().filter(|&&v| v != def).count();
            if ex > 4096 { return unsup("symbolic read with too many distinct slots"); }
            let mut r = def;
            for (i, &v) in vals.iter().enumerate() {
                if v == def { continue; }
                let k = self.tm.c((lo >> tz) as u128 + i as u128, iw);
                let e = self.tm.eq(idx, k);
                r = self.tm.ite(e, v, r);
            }
            r
        };
        for e in ob.log.iter() {
            if e.len as u64 != len { return unsup("mixed-width symbolic access"); }
            let q = self.tm.eq(e.off, off);
            let c = self.tm.and(q, e.guard);
            let v = if fp { let v = e.val; self.tm.ffrombits(v) } else { e.val };
            res = self.tm.ite(c, v, res);
        }
        Ok(self.mkv(res))
    }

    fn store(&mut self, st: &mut State, ty: &Ty, v: &V, p: &V) -> R<()> {
        match (ty, v) {
            (Ty::Struct(f, _), V::Agg(a)) => { for i in 0..f.len() { let q = self.padd(p, ty.field_off(i)); self.store(st, &f[i], &a[i], &q)?; } return Ok(()); }
            (Ty::Arr(n, t), V::Agg(a)) | (Ty::Vec(n, t), V::Agg(a)) => { for i in 0..*n { let q = self.padd(p, i * t.size()); self.store(st, t, &a[i as usize], &q)?; } return Ok(()); }
            _ => {}
        }
        let len = ty.store_size();
        if let Some((c, x, y)) = self.pointer_choice(st, p) {
            let (old_a, old_b) = (self.load(st, ty, &x)?, self.load(st, ty, &y)?);
            if let (Some(va), Some(vb)) = (self.merge_v(c, v, &old_a, ty), self.merge_v(c, &old_b, v, ty)) {
                self.store(st, ty, &va, &x)?;
                return self.store(st, ty, &vb, &y);
            }
        }
        let (b, off) = self.resolve(st, p, len)?;
        if self.gidx.contains_key(&b) && self.m.globals[self.gidx[&b]].constant { return Err(Stop::Panic("write to constant memory".into())); }
        let v = match v { V::Undef => return Ok(()), v => v.clone() };
        match off {
            V::I(o) => {
                // touch
                if !st.mem.contains_key(&b) { let ob = self.obj(st, b); st.mem.insert(b, ob); }
                let ob = Rc::make_mut(st.mem.get_mut(&b).unwrap());
                ob.store(&mut self.tm, o, &v, len);
            }
            V::T(off) => {
                let w = 8 * len as u32;
                if self.cfg.verbose { let f = st.frames.last().unwrap(); eprintln!("SYMSTORE {} [{}] {:?} {}", short(&f.f.name), f.block, self.tm.rng(off), self.tm.show(off, 12)); }
                let ob = if let Some(o) = st.mem.get(&b) { o.clone() } else { self.obj(st, b) };
                let (lo, hi, stride) = self.slots(&ob, off, len);
                let n = (hi - lo) / stride + 1;
                let val = match &v { V::I(k) => self.tm.c(*k as u128, w), V::F(k) => self.tm.c(*k as u128, 64), V::T(t) => { let t = *t; if self.tm.is_fp(t) { self.tm.fbits(t) } else { self.tm.resize(t, w) } } _ => unreachable!() };
                let small = self.cfg.small;
                let tt = self.tm.tt();
                if n <= small && ob.log.is_empty() && stride >= len {
                    let tz = stride.trailing_zeros();
                    let _ = tz;
                    let mut o = lo;
                    let mut newv = vec![];
                    while o <= hi {
                        let old = ob.read_base(&mut self.tm, o, len);
                        let old = match old { V::I(k) => self.tm.c(k as u128, w), V::T(t) => if self.tm.is_fp(t) { self.tm.fbits(t) } else { t }, _ => unreachable!() };
                        let ot = self.tm.c(o as u128, 64);
                        let c = self.tm.eq(off, ot);
                        let nv = self.tm.ite(c, val, old);
                        newv.push((o, nv));
                        o += stride;
                    }
                    let ob = self.obj_mut(st, b);
                    let mut tmp = std::mem::take(ob);
                    for (o, nv) in newv { tmp.store(&mut self.tm, o, &V::T(nv), len); }
                    *self.obj_mut(st, b) = tmp;
                } else {
                    if stride < len { return unsup("unaligned symbolic write"); }
                    let ob = self.obj_mut(st, b);
                    Rc::make_mut(&mut ob.log).push(LogEnt { guard: tt, off, val, len: len as u8 });
                }
            }
            _ => unreachable!(),
        }
        Ok(())
    }

    fn memcpy(&mut self, st: &mut State, d: &V, s: &V, n: u64) -> R<()> {
        if n == 0 { return Ok(()); }
        let (sb, so) = self.resolve(st, s, n)?;
        let (db, dof) = self.resolve(st, d, n)?;
        let (so, dof) = match (so, dof) {
            (V::I(a), V::I(b)) => (a, b),
            (a, b) => {
                // concretise the symbolic side
                if let V::T(t) = a { let bt = self.tm.c(sb as u128, 64); let _ = (t, bt); if let V::T(p) = s { return Err(Stop::ForkVals(*p)); } }
                if let V::T(_) = b { if let V::T(p) = d { return Err(Stop::ForkVals(*p)); } }
                unreachable!()
            }
        };
        let src = if let Some(o) = st.mem.get(&sb) { o.clone() } else { self.obj(st, sb) };
        // collect pieces
        let bytes = src.bytes[so as usize..(so + n) as usize].to_vec();
        let mut cells = vec![];
        if !src.sym.is_empty() {
            let mut tmp;
            let sr: &Obj = {
                // split straddling cells on a copy
                let strad = |o: &Obj, at: u32| o.sym.range(..at).next_back().map_or(false, |(&k, &(_, l))| k + l as u32 > at);
                if strad(&src, so as u32) || strad(&src, (so + n) as u32) {
                    tmp = (*src).clone();
                    let keep: Vec<(u32, (T, u8))> = tmp.sym.iter().map(|(a, b)| (*a, *b)).collect();
                    tmp.clear_edges(&mut self.tm, so as u32, (so + n) as u32);
                    let _ = keep;
                    &tmp
                } else { &src }
            };
            for (&k, &(t, l)) in sr.sym.range(so as u32..(so + n) as u32) { cells.push((k - so as u32 + dof as u32, t, l)); }
            if !std::ptr::eq(sr, &*src) {
                // constants produced by the split
                let b2 = sr.bytes[so as usize..(so + n) as usize].to_vec();
                let log = src.log.clone();
                return self.memcpy_fin(st, db, dof, so, n, b2, cells, log);
            }
        }
        let log = src.log.clone();
        self.memcpy_fin(st, db, dof, so, n, bytes, cells, log)
    }
    fn memcpy_fin(&mut self, st: &mut State, db: u64, dof: u64, so: u64, n: u64, bytes: Vec<u8>, cells: Vec<(u32, T, u8)>, log: Rc<Vec<LogEnt>>) -> R<()> {
        if self.gidx.contains_key(&db) && self.m.globals[self.gidx[&db]].constant { return Err(Stop::Panic("write to constant memory".into())); }
        let mut newlog = vec![];
        if !log.is_empty() {
            for e in log.iter() {
                let (lo, hi) = self.tm.rng(e.off);
                if hi + (e.len as u128) <= so as u128 || lo >= (so + n) as u128 { continue; }
                let inside = lo >= so as u128 && hi + e.len as u128 <= (so + n) as u128;
                let mut g = e.guard;
                if !inside {
                    // keep only entries that fall wholly inside, others must fall wholly outside
                    let a = self.tm.c(so as u128, 64);
                    let b = self.tm.c((so + n) as u128, 64);
                    let x = self.tm.ule(a, e.off);
                    let y = self.tm.ult(e.off, b);
                    let z = self.tm.and(x, y);
                    g = self.tm.and(g, z);
                }
                let delta = self.tm.c(dof.wrapping_sub(so) as u128, 64);
                let off = self.tm.add(e.off, delta);
                newlog.push(LogEnt { guard: g, off, val: e.val, len: e.len });
            }
        }
        let ob = self.obj_mut(st, db);
        let mut tmp = std::mem::take(ob);
        if !tmp.log.is_empty() && !(dof == 0 && n == tmp.size) && !newlog_ok(&self.tm, &tmp.log, dof, n) {
            *self.obj_mut(st, db) = tmp;
            return unsup("memcpy into a symbolically indexed buffer");
        }
        if dof == 0 && n == tmp.size { tmp.log = Rc::new(vec![]); }
        tmp.write_bytes(&mut self.tm, dof, &bytes);
        for (k, t, l) in cells { tmp.sym.insert(k, (t, l)); }
        if !newlog.is_empty() { Rc::make_mut(&mut tmp.log).extend(newlog); }
        *self.obj_mut(st, db) = tmp;
        Ok(())
    }
    fn memset(&mut self, st: &mut State, d: &V, v: &V, n: u64) -> R<()> {
        if n == 0 { return Ok(()); }
        let (b, o) = self.resolve(st, d, n)?;
        let o = match o { V::I(o) => o, _ => { if let V::T(p) = d { return Err(Stop::ForkVals(*p)); } unreachable!() } };
        match v {
            V::I(k) => {
                let ob = self.obj_mut(st, b);
                let mut tmp = std::mem::take(ob);
                if o == 0 && n == tmp.size { tmp.log = Rc::new(vec![]); }
                if !tmp.log.is_empty() { *self.obj_mut(st, b) = tmp; return unsup("memset over a symbolic log"); }
                tmp.write_bytes(&mut self.tm, o, &vec![*k as u8; n as usize]);
                *self.obj_mut(st, b) = tmp;
                Ok(())
            }
            _ => unsup("memset with a symbolic byte"),
        }
    }

    // ------------------------------------------------------------------ driver
    pub fn run_harness(&mut self, name: &str) {
        self.start = Instant::now();
        let f = match self.m.func(name) { Some(f) => f, None => { self.unsup.push(format!("no harness {}", name)); return; } };
        let fr = Frame { regs: vec![V::Undef; f.nregs as usize], f, block: 0, ip: 0, allocas: vec![], ret_dst: u32::MAX, ret_normal: u32::MAX };
        let st = State {
            frames: vec![fr], mem: BTreeMap::new(), pc: vec![], pcset: Rc::new(HashSet::default()), model: Some(Rc::new(HashMap::default())), symvars: vec![], conc: Rc::new(HashMap::default()),
            heap: 0x4000_0000, stack: 0x7000_0000_0000, notes: vec![], steps: 0, errno: 0,
        };
        self.work.push(st);
        while let Some(st) = self.work.pop() {
            if self.out_of_budget() { self.unsup.push("budget exhausted".into()); self.work.clear(); return; }
            if (self.cfg.stop_first && !self.viol.is_empty()) || self.viol.len() >= self.cfg.max_viol { return; }
            self.run_path(st);
        }
    }
    fn out_of_budget(&self) -> bool { self.n_paths + self.n_panics + self.n_infeasible > self.cfg.max_paths || self.start.elapsed().as_secs_f64() > self.cfg.max_secs }

    fn run_path(&mut self, mut st: State) {
        loop {
            if st.frames.is_empty() {
                self.n_paths += 1;
                if self.paths.len() < self.cfg.want_paths { self.record_path(&st, "end"); }
                return;
            }
            if self.n_steps & 0xffff == 0 && self.out_of_budget() { self.unsup.push("budget exhausted".into()); return; }
            let r = self.step(&mut st);
            match r {
                Ok(()) => {}
                Err(Stop::Infeasible) => { self.n_infeasible += 1; return; }
                Err(Stop::Panic(s)) => {
                    self.n_panics += 1;
                    let mut model = st.model.as_ref().map(|m| (**m).clone());
                    if let Some(m) = &model { if !self.holds(m, &st.pc) { model = None; } }
                    let where_ = format!("panic: {}", s);
                    if self.cfg.verbose { eprintln!("{} at {:?}", where_, st.frames.iter().rev().map(|f| f.f.name.to_string()).take(5).collect::<Vec<_>>()); }
                    self.record_violation(&st, &where_, 0, &[], model);
                    return;
                }
                Err(Stop::Unsup(s)) => {
                    let w = format!("{} in {} [{}]", s, st.frames.last().map(|f| f.f.name.to_string()).unwrap_or_default(), st.frames.last().map(|f| f.block).unwrap_or(0));
                    if self.cfg.verbose { eprintln!("UNSUPPORTED {}", w); }
                    self.unsup.push(w);
                    return;
                }
                Err(Stop::Fork(c)) => {
                    if self.cfg.verbose { eprintln!("fork in {} [{}] ip {}", short(&st.frames.last().unwrap().f.name), st.frames.last().unwrap().block, st.frames.last().unwrap().ip); }
                    let nc = self.tm.not(c);
                    let a = match self.feasible(&st, c) { Ok(f) => f, Err(_) => Feas::Maybe };
                    let b = match self.feasible(&st, nc) { Ok(f) => f, Err(_) => Feas::Maybe };
                    self.n_forks += 1;
                    if let Some(m) = yes(&b) { let mut s2 = st.clone(); self.add_pc(&mut s2, nc, m); self.work.push(s2); }
                    match yes(&a) { Some(m) => self.add_pc(&mut st, c, m), None => { return; } }
                }
                Err(Stop::ForkVals(t)) => {
                    if self.cfg.verbose { eprintln!("value fork in {} [{}]", short(&st.frames.last().unwrap().f.name), st.frames.last().unwrap().block); }
                    // enumerate all feasible values
                    self.n_forks += 1;
                    let w = self.tm.w(t);
                    let mut first = true;
                    let mut cur = st.clone();
                    let mut count = 0;
                    let mut rounds = 0;
                    loop {
                        rounds += 1;
                        if rounds > 2000 || self.start.elapsed().as_secs_f64() > self.cfg.max_secs { self.unsup.push("value fork without end".into()); return; }
                        let k = match self.some_value(&cur, t) { Ok(k) => k, Err(Stop::Unsup(s)) => { self.unsup.push(s); return; } _ => return };
                        let kt = self.tm.c(k as u128, w);
                        let e = self.tm.eq(t, kt);
                        let fe = match self.feasible(&cur, e) { Ok(f) => f, Err(_) => { self.unsup.push("value fork".into()); return; } };
                        if let Some(m) = yes(&fe) {
                            let mut s2 = st.clone();
                            self.add_pc(&mut s2, e, m);
                            Rc::make_mut(&mut s2.conc).insert(t, k);
                            self.work.push(s2);
                            count += 1;
                        }
                        let ne = self.tm.not(e);
                        match self.feasible(&cur, ne) {
                            Ok(f) => match yes(&f) { Some(m) => self.add_pc(&mut cur, ne, m), None => break },
                            Err(_) => { self.unsup.push("value fork".into()); return; }
                        }
                        if count > 600 { self.unsup.push(format!("value fork over too many values in {}", st.frames.last().unwrap().f.name)); return; }
                        let _ = first;
                        first = false;
                    }
                    return;
                }
            }
        }
    }
    fn record_path(&mut self, st: &State, kind: &str) {
        let m = match &st.model { Some(m) => Some((**m).clone()), None => if self.paths.len() < 4 { self.realise(st, &[]) } else { None } };
        if let Some(m) = m {
            let mut memo = HashMap::default();
            if !self.holds(&m, &st.pc) { return; }
            let vals = st.symvars.iter().map(|&v| (self.tm.vars[v as usize].1 as u32, m.get(&v).copied().unwrap_or(self.tm.var_default(v)))).collect();
            let notes = st.notes.iter().map(|(id, v, _)| (*id, match v { V::I(k) | V::F(k) => *k as u128, V::T(t) => self.tm.eval(*t, &m, &mut memo), _ => 0 })).collect();
            self.paths.push(PathRec { vals, notes, kind: kind.into() });
        }
    }

    // ------------------------------------------------------------------ control flow
    fn goto(&mut self, st: &mut State, target: u32) -> R<()> {
        let f = st.frames.last().unwrap().f.clone();
        let from = st.frames.last().unwrap().block;
        let b = &f.blocks[target as usize];
        if !b.phis.is_empty() {
            let mut vals = Vec::with_capacity(b.phis.len());
            for (d, _t, inc) in &b.phis {
                let o = &inc.iter().find(|x| x.0 == from).expect("phi edge").1;
                vals.push((*d, self.opd(st, o)));
            }
            let fr = st.frames.last_mut().unwrap();
            for (d, v) in vals { fr.regs[d as usize] = v; }
        }
        let fr = st.frames.last_mut().unwrap();
        fr.block = target;
        fr.ip = 0;
        Ok(())
    }

    /// two-way branch on a symbolic condition
    fn branch(&mut self, st: &mut State, c: T, a: u32, b: u32) -> R<()> {
        match self.not_in_pc(st, c) { Some(true) => return self.goto(st, a), Some(false) => return self.goto(st, b), None => {} }
        let nc = self.tm.not(c);
        let f = st.frames.last().unwrap().f.clone();
        let blk = st.frames.last().unwrap().block;
        let (da, db) = (f.dead[a as usize], f.dead[b as usize]);
        if da != db {
            // one side can only panic
            let (dc, live, lc) = if da { (c, b, nc) } else { (nc, a, c) };
            match self.feasible(st, dc)? {
                Feas::No => return self.goto(st, live),
                fe => {
                    if self.in_region > 0 { return unsup("@region"); }
                    let m = yes(&fe).unwrap();
                    let mut s2 = st.clone();
                    self.add_pc(&mut s2, dc, m);
                    self.goto(&mut s2, if da { a } else { b })?;
                    self.work.push(s2);
                    self.n_forks += 1;
                    match self.feasible(st, lc)? {
                        Feas::No => return Err(Stop::Infeasible),
                        fe => { let m = yes(&fe).unwrap(); self.add_pc(st, lc, m); return self.goto(st, live); }
                    }
                }
            }
        }
        // try to execute both sides up to the join point and merge
        if self.cfg.merge && !self.tm.has_fp[c as usize] {
            let j = f.ipdom[blk as usize];
            if j >= 0 && self.region_ok(&f, blk, a, b, j as u32) {
                if let Some(s) = self.merge_region(st, c, nc, a, b, j as u32) { *st = s; self.n_merges += 1; return Ok(()); }
            }
        }
        if self.in_region > 0 {
            // only one side may be feasible
            let fa = self.feasible(st, c)?;
            if let Feas::No = fa { return self.goto(st, b); }
            let fb = self.feasible(st, nc)?;
            if let Feas::No = fb { return self.goto(st, a); }
            return unsup("@region");
        }
        let fa = self.feasible(st, c)?;
        let fb = match &fa { Feas::No => Feas::Maybe, _ => self.feasible(st, nc)? };
        match (yes(&fa), &fb) {
            (None, _) => self.goto(st, b),
            (Some(_), Feas::No) => self.goto(st, a),
            (Some(ma), fb) => {
                self.n_forks += 1;
                *self.fork_sites.entry((f.name.clone(), blk)).or_insert(0) += 1;
                let mut s2 = st.clone();
                let mb = yes(fb).unwrap();
                self.add_pc(&mut s2, nc, mb);
                self.goto(&mut s2, b)?;
                self.work.push(s2);
                self.add_pc(st, c, ma);
                self.goto(st, a)
            }
        }
    }

    fn region_ok(&self, f: &Func, blk: u32, a: u32, b: u32, j: u32) -> bool {
        let mut seen = vec![];
        let mut stack = vec![a, b];
        let mut n_ins = 0;
        while let Some(x) = stack.pop() {
            if x == j || seen.contains(&x) { continue; }
            if x == blk { return false; }
            if f.dead[x as usize] { continue; }
            seen.push(x);
            if seen.len() > 12 { return false; }
            for i in &f.blocks[x as usize].ins {
                n_ins += 1;
                match i {
                    I::Call { name: Some(n), .. } if n.starts_with("llvm.") => {}
                    I::Call { .. } | I::Alloca(..) | I::Unsupported(_) | I::AtomicRmw(..) | I::CmpXchg(..) => return false,
                    _ => {}
                }
            }
            if n_ins > 120 { return false; }
            stack.extend(ir::succs(&f.blocks[x as usize]));
        }
        // acyclic?
        fn dfs(f: &Func, x: u32, j: u32, path: &mut Vec<u32>) -> bool {
            if x == j || f.dead[x as usize] { return true; }
            if path.contains(&x) { return false; }
            path.push(x);
            for s in ir::succs(&f.blocks[x as usize]) { if !dfs(f, s, j, path) { return false; } }
            path.pop();
            true
        }
        dfs(f, a, j, &mut vec![]) && dfs(f, b, j, &mut vec![])
    }

    fn merge_region(&mut self, st: &State, c: T, nc: T, a: u32, b: u32, j: u32) -> Option<State> {
        let depth = st.frames.len();
        let base = st.pc.len();
        let v0 = self.viol.len();
        let w0 = self.work.len();
        let u0 = self.unsup.len();
        self.in_region += 1;
        let mut outs = vec![];
        let mut ok = true;
        for (cond, tgt) in [(c, a), (nc, b)] {
            let mut s = st.clone();
            // the model may not satisfy this side
            let m = match &s.model { Some(m) => { let mut memo = HashMap::default(); if self.tm.eval(cond, m, &mut memo) == 1 { Some(m.clone()) } else { None } } None => None };
            self.add_pc(&mut s, cond, m);
            let mut r = self.goto(&mut s, tgt);
            while r.is_ok() {
                if s.frames.len() == depth && s.frames.last().unwrap().block == j && s.frames.last().unwrap().ip == 0 { break; }
                r = self.step(&mut s);
            }
            if let Err(e) = &r { if self.cfg.verbose { eprintln!("merge failed in {} [{}]: {}", short(&st.frames.last().unwrap().f.name), s.frames.last().unwrap().block, match e { Stop::Unsup(x) => x.clone(), Stop::Panic(x) => format!("panic {}", x), Stop::Fork(t) => { format!("fork {}", t) } Stop::ForkVals(t) => format!("forkvals {}", t), _ => "other".into() }); } ok = false; break; }
            outs.push(s);
        }
        self.in_region -= 1;
        if !ok {
            self.viol.truncate(v0);
            self.work.truncate(w0);
            self.unsup.truncate(u0);
            return None;
        }
        let sb = outs.pop().unwrap();
        let sa = outs.pop().unwrap();
        let mut out = st.clone();
        // registers
        let fi = depth - 1;
        {
            let n = out.frames[fi].regs.len();
            let fun = out.frames[fi].f.clone();
            for i in 0..n {
                let (x, y) = (&sa.frames[fi].regs[i], &sb.frames[fi].regs[i]);
                let v = self.merge_v(c, x, y, &fun.rty[i])?;
                out.frames[fi].regs[i] = v;
            }
            out.frames[fi].block = j;
            out.frames[fi].ip = 0;
        }
        // memory
        if sa.mem.len() != sb.mem.len() { return None; }
        let keys: Vec<u64> = sa.mem.keys().cloned().collect();
        for k in keys {
            let x = &sa.mem[&k];
            let y = sb.mem.get(&k)?;
            if Rc::ptr_eq(x, y) { out.mem.insert(k, x.clone()); continue; }
            let o = self.merge_obj(c, nc, x, y)?;
            out.mem.insert(k, Rc::new(o));
        }
        // path condition: extra constraints become implications
        let mut extras = vec![];
        for (s, cond) in [(&sa, c), (&sb, nc)] {
            for &p in &s.pc[base..] {
                if p == cond { continue; }
                let n = self.tm.not(cond);
                let imp = self.tm.or(n, p);
                extras.push(imp);
            }
        }
        out.steps = sa.steps.max(sb.steps);
        let m = out.model.clone();
        for e in extras {
            if self.tm.cval(e) == Some(1) { continue; }
            // conjuncts of cond itself were split; skip those implied
            let m2 = match &m { Some(mm) => { let mut memo = HashMap::default(); if self.tm.eval(e, mm, &mut memo) == 1 { m.clone() } else { None } } None => None };
            self.add_pc(&mut out, e, m2);
        }
        Some(out)
    }
    /// ite(c, x, y) of two values of type `t`; None when it cannot be expressed
    fn merge_v(&mut self, c: T, x: &V, y: &V, t: &Ty) -> Option<V> {
        Some(match (x, y) {
            (V::I(a), V::I(b)) if a == b => x.clone(),
            (V::F(a), V::F(b)) if a == b => x.clone(),
            (V::T(a), V::T(b)) if a == b => x.clone(),
            (V::Undef, v) | (v, V::Undef) => v.clone(),
            (V::Agg(a), V::Agg(b)) => {
                if Rc::ptr_eq(a, b) { return Some(x.clone()); }
                if a.len() != b.len() { return None; }
                let mut v = vec![];
                for (i, (p, q)) in a.iter().zip(b.iter()).enumerate() {
                    let et = match t { Ty::Struct(f, _) => f.get(i)?.clone(), Ty::Arr(_, e) | Ty::Vec(_, e) => (**e).clone(), _ => return None };
                    v.push(self.merge_v(c, p, q, &et)?);
                }
                V::Agg(Rc::new(v))
            }
            (V::Agg(_), _) | (_, V::Agg(_)) => return None,
            _ => match t {
                Ty::F64 => { let a = self.fterm(x); let b = self.fterm(y); let r = self.tm.fite(c, a, b); self.mkv(r) }
                Ty::Int(_) | Ty::Ptr => {
                    let w = if let Ty::Int(w) = t { *w } else { 64 };
                    let a = self.term(x, w);
                    let b = self.term(y, w);
                    let r = self.tm.ite(c, a, b);
                    self.mkv(r)
                }
                _ => return None,
            },
        })
    }
    fn merge_obj(&mut self, c: T, nc: T, x: &Obj, y: &Obj) -> Option<Obj> {
        if x.size != y.size { return None; }
        let mut o = x.clone();
        // differing concrete runs and symbolic cells, in units of cells of either side or aligned 8/4/1 bytes
        let mut offs: BTreeMap<u32, u8> = BTreeMap::new();
        for (s, other) in [(x, y), (y, x)] {
            for (&k, &(t, l)) in &s.sym {
                match other.sym.get(&k) { Some(&(t2, l2)) if t2 == t && l2 == l => {} _ => {
                    match offs.get(&k) { Some(&ol) if ol >= l => {} _ => { offs.insert(k, l); } }
                } }
            }
        }
        if x.bytes != y.bytes {
            let mut i = 0;
            while i < x.bytes.len() {
                if x.bytes[i] != y.bytes[i] {
                    let cov = offs.range(..=(i as u32)).next_back().map_or(false, |(&k, &l)| k + l as u32 > i as u32);
                    if !cov {
                        // both hold the same symbolic cell here -> stale bytes, ignore
                        let stale = |s: &Obj| s.sym.range(..=(i as u32)).next_back().map_or(false, |(&k, &(_, l))| k + l as u32 > i as u32);
                        if !(stale(x) && stale(y)) {
                            let al = if x.size % 8 == 0 && i / 8 * 8 + 8 <= x.bytes.len() && x.bytes.len() <= 4096 { (i / 4 * 4) as u32 } else { (i / 4 * 4) as u32 };
                            let l = (4u32).min(x.size as u32 - al) as u8;
                            offs.insert(al, l);
                        }
                    }
                }
                i += 1;
            }
        }
        // overlapping entries: give up unless disjoint
        let mut last = 0u32;
        for (&k, &l) in &offs { if k < last { return None; } last = k + l as u32; }
        if offs.len() > 4096 { return None; }
        for (k, l) in offs {
            let a = x.read_base(&mut self.tm, k as u64, l as u64);
            let b = y.read_base(&mut self.tm, k as u64, l as u64);
            let w = 8 * l as u32;
            let fpa = matches!(&a, V::T(t) if self.tm.is_fp(*t));
            let fpb = matches!(&b, V::T(t) if self.tm.is_fp(*t));
            let r = if fpa || fpb { let p = self.fterm(&a); let q = self.fterm(&b); self.tm.fite(c, p, q) } else {
                let p = self.term(&a, w);
                let q = self.term(&b, w);
                self.tm.ite(c, p, q)
            };
            o.write_term(&mut self.tm, k as u64, r, l);
        }
        // logs
        let (lx, ly) = (x.log.clone(), y.log.clone());
        if !Rc::ptr_eq(&lx, &ly) {
            let mut p = 0;
            while p < lx.len() && p < ly.len() && lx[p].off == ly[p].off && lx[p].val == ly[p].val && lx[p].guard == ly[p].guard { p += 1; }
            let mut l: Vec<LogEnt> = lx[..p].to_vec();
            // pairwise writes to the same place merge into one
            let (rx, ry) = (&lx[p..], &ly[p..]);
            if rx.len() == 1 && ry.len() == 1 && rx[0].off == ry[0].off && rx[0].len == ry[0].len && rx[0].guard == ry[0].guard {
                let v = self.tm.ite(c, rx[0].val, ry[0].val);
                l.push(LogEnt { guard: rx[0].guard, off: rx[0].off, val: v, len: rx[0].len });
            } else {
                for e in rx { let g = self.tm.and(e.guard, c); l.push(LogEnt { guard: g, ..e.clone() }); }
                for e in ry { let g = self.tm.and(e.guard, nc); l.push(LogEnt { guard: g, ..e.clone() }); }
            }
            o.log = Rc::new(l);
        }
        Some(o)
    }
    fn set(&mut self, st: &mut State, d: u32, v: V) { if d != u32::MAX { st.frames.last_mut().unwrap().regs[d as usize] = v; } }

    pub fn bin(&mut self, op: Bin, w: u32, a: &V, b: &V) -> R<V> {
        if w <= 64 {
            if let (V::I(x), V::I(y)) = (a, b) {
                let (x, y) = (*x, *y);
                let mk = if w == 64 { u64::MAX } else { (1u64 << w) - 1 };
                let sxt = |v: u64| ((v << (64 - w)) as i64) >> (64 - w);
                let r = match op {
                    Bin::Add => x.wrapping_add(y), Bin::Sub => x.wrapping_sub(y), Bin::Mul => x.wrapping_mul(y),
                    Bin::UDiv => { if y == 0 { return Err(Stop::Panic("division by zero".into())); } x / y }
                    Bin::URem => { if y == 0 { return Err(Stop::Panic("division by zero".into())); } x % y }
                    Bin::SDiv => { if y == 0 { return Err(Stop::Panic("division by zero".into())); } sxt(x).wrapping_div(sxt(y)) as u64 }
                    Bin::SRem => { if y == 0 { return Err(Stop::Panic("division by zero".into())); } sxt(x).wrapping_rem(sxt(y)) as u64 }
                    Bin::Shl => if y >= w as u64 { 0 } else { x << y },
                    Bin::LShr => if y >= w as u64 { 0 } else { x >> y },
                    Bin::AShr => (sxt(x) >> y.min(w as u64 - 1)) as u64,
                    Bin::And => x & y, Bin::Or => x | y, Bin::Xor => x ^ y,
                };
                return Ok(V::I(r & mk));
            }
        }
        let x = self.term(a, w);
        let y = self.term(b, w);
        let t = match op {
            Bin::Add => self.tm.add(x, y), Bin::Sub => self.tm.sub(x, y), Bin::Mul => self.tm.mul(x, y),
            Bin::UDiv => self.tm.udiv(x, y), Bin::SDiv => self.tm.sdiv(x, y), Bin::URem => self.tm.urem(x, y), Bin::SRem => self.tm.srem(x, y),
            Bin::Shl => self.tm.shl(x, y), Bin::LShr => self.tm.lshr(x, y), Bin::AShr => self.tm.ashr(x, y),
            Bin::And => self.tm.and(x, y), Bin::Or => self.tm.or(x, y), Bin::Xor => self.tm.xor(x, y),
        };
        Ok(self.mkv(t))
    }
    fn icmp(&mut self, p: Pred, w: u32, a: &V, b: &V) -> V {
        if let (V::I(x), V::I(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let s = |v: u64| if w >= 64 { v as i64 } else { ((v << (64 - w)) as i64) >> (64 - w) };
            let r = match p { Pred::Eq => x == y, Pred::Ne => x != y, Pred::Ult => x < y, Pred::Ule => x <= y, Pred::Ugt => x > y, Pred::Uge => x >= y, Pred::Slt => s(x) < s(y), Pred::Sle => s(x) <= s(y), Pred::Sgt => s(x) > s(y), Pred::Sge => s(x) >= s(y) };
            return V::I(r as u64);
        }
        let x = self.term(a, w);
        let y = self.term(b, w);
        let t = match p {
            Pred::Eq => self.tm.eq(x, y), Pred::Ne => self.tm.ne(x, y),
            Pred::Ult => self.tm.ult(x, y), Pred::Ugt => self.tm.ult(y, x),
            Pred::Ule => self.tm.ule(x, y), Pred::Uge => self.tm.ule(y, x),
            Pred::Slt => self.tm.slt(x, y), Pred::Sgt => self.tm.slt(y, x),
            Pred::Sle => { let z = self.tm.slt(y, x); self.tm.not(z) }
            Pred::Sge => { let z = self.tm.slt(x, y); self.tm.not(z) }
        };
        self.mkv(t)
    }
    fn fcmp(&mut self, p: &str, a: &V, b: &V) -> V {
        let x = self.fterm(a);
        let y = self.fterm(b);
        if let (Some(f), Some(g)) = (self.tm.fval(x), self.tm.fval(y)) {
            let un = f.is_nan() || g.is_nan();
            let r = match p { "oeq" => f == g, "one" => !un && f != g, "olt" => f < g, "ole" => f <= g, "ogt" => f > g, "oge" => f >= g, "ord" => !un, "uno" => un,
                "ueq" => un || f == g, "une" => f != g, "ult" => un || f < g, "ule" => un || f <= g, "ugt" => un || f > g, "uge" => un || f >= g, "true" => true, _ => false };
            return V::I(r as u64);
        }
        for (i, v) in [self.tm.fval(x), self.tm.fval(y)].into_iter().enumerate() {
            if let Some(f) = v { if f.is_infinite() {
                // the other one is finite: compare as if it were 0
                let (a, b) = if i == 0 { (f, 0.0) } else { (0.0, f) };
                let r = match p { "oeq" | "ueq" | "uno" | "false" => false, "olt" | "ult" | "ole" | "ule" => a < b, "ogt" | "ugt" | "oge" | "uge" => a > b, _ => true };
                return V::I(r as u64);
            } }
        }
        // a symbolic double is never NaN (enforced where it is made); a constant may be
        let nan = self.tm.fval(x).map_or(false, |f| f.is_nan()) || self.tm.fval(y).map_or(false, |f| f.is_nan());
        if nan { return V::I((p.starts_with('u') && p != "uno" || p == "uno" || p == "true") as u64); }
        let t = match p {
            "oeq" | "ueq" => self.tm.fcmp(Op::FEq, x, y),
            "one" | "une" => { let e = self.tm.fcmp(Op::FEq, x, y); self.tm.not(e) }
            "olt" | "ult" => self.tm.fcmp(Op::FLt, x, y),
            "ogt" | "ugt" => self.tm.fcmp(Op::FLt, y, x),
            "ole" | "ule" => self.tm.fcmp(Op::FLe, x, y),
            "oge" | "uge" => self.tm.fcmp(Op::FLe, y, x),
            "ord" | "true" => self.tm.tt(),
            _ => self.tm.ff(),
        };
        self.mkv(t)
    }

    // ------------------------------------------------------------------ one instruction
    pub fn step(&mut self, st: &mut State) -> R<()> {
        self.n_steps += 1;
        st.steps += 1;
        if st.steps > self.cfg.max_steps { return unsup("step limit"); }
        let f = st.frames.last().unwrap().f.clone();
        let (blk, ip) = { let fr = st.frames.last().unwrap(); (fr.block, fr.ip) };
        let ins = &f.blocks[blk as usize].ins[ip as usize];
        match ins {
            I::Nop => {}
            I::Bin(op, d, w, a, b) => {
                let x = self.opd(st, a);
                let y = self.opd(st, b);
                if matches!(op, Bin::UDiv | Bin::URem | Bin::SDiv | Bin::SRem) {
                    if let V::T(t) = y { let z = self.tm.c(0, *w); let e = self.tm.eq(t, z); if self.tm.cval(e) != Some(0) { match self.feasible(st, e)? { Feas::No => {} _ => return Err(Stop::Panic("division by zero".into())) } } }
                }
                let v = self.bin(*op, *w, &x, &y)?;
                self.set(st, *d, v);
            }
            I::BinV(op, d, t, a, b) => {
                let (n, w) = match t { Ty::Vec(n, e) => (*n as usize, e.bits() as u32), _ => return unsup("vector op") };
                let x = self.opd(st, a);
                let y = self.opd(st, b);
                let (x, y) = match (x, y) { (V::Agg(x), V::Agg(y)) => (x, y), _ => return unsup("vector op") };
                let mut v = vec![];
                for i in 0..n { v.push(self.bin(*op, w, &x[i], &y[i])?); }
                self.set(st, *d, V::Agg(Rc::new(v)));
            }
            I::FBin(op, d, a, b) => {
                let x = self.opd(st, a);
                let y = self.opd(st, b);
                if let (V::F(p), V::F(q)) = (&x, &y) {
                    let (p, q) = (f64::from_bits(*p), f64::from_bits(*q));
                    let r = match op { FBin::Add => p + q, FBin::Sub => p - q, FBin::Mul => p * q, FBin::Div => p / q, FBin::Rem => p % q };
                    self.set(st, *d, V::F(r.to_bits()));
                } else {
                    let p = self.fterm(&x);
                    let mut q = self.fterm(&y);
                    // a symbolic double is finite
                    let nf = |f: Option<f64>| f.filter(|f| !f.is_finite());
                    let (np, nq) = (nf(self.tm.fval(p)), nf(self.tm.fval(q)));
                    if np.is_some() || nq.is_some() {
                        let sg = |m: &Self, t: T| -> f64 { let i = m.tm.fint[t as usize]; if i.0 > 0.0 { 1.0 } else if i.1 < 0.0 { -1.0 } else { 0.0 } };
                        let (a, b) = (np.unwrap_or(sg(self, p)), nq.unwrap_or(sg(self, q)));
                        let r = if a.is_nan() || b.is_nan() { Some(f64::NAN) } else { match op {
                            FBin::Add => Some(a + b),
                            FBin::Sub => Some(a - b),
                            FBin::Mul if a != 0.0 && b != 0.0 => Some(a * b),
                            FBin::Div if a != 0.0 && b != 0.0 => Some(a / b),
                            _ => None,
                        } };
                        match r { Some(r) => { self.set(st, *d, V::F(r.to_bits())); st.frames.last_mut().unwrap().ip += 1; return Ok(()); } None => return unsup("symbolic double combined with a non-finite constant") }
                    }
                    let t = match op {
                        FBin::Add => self.tm.fadd(p, q), FBin::Sub => self.tm.fsub(p, q), FBin::Mul => self.tm.fmul(p, q),
                        FBin::Div => {
                            let iv = self.tm.fint[q as usize];
                            if iv.0 <= 0.0 && iv.1 >= 0.0 {
                                let z = self.tm.fc(0.0);
                                let e = self.tm.fcmp(Op::FEq, q, z);
                                match self.not_in_pc(st, e) {
                                    Some(true) => {
                                        // x / +0: sign of zero taken as positive
                                        let r = match self.tm.fval(p) { Some(v) => v / 0.0, None => { let i = self.tm.fint[p as usize]; if i.0 > 0.0 { f64::INFINITY } else if i.1 < 0.0 { f64::NEG_INFINITY } else { return unsup("symbolic / 0") } } };
                                        self.set(st, *d, V::F(r.to_bits()));
                                        st.frames.last_mut().unwrap().ip += 1;
                                        return Ok(());
                                    }
                                    Some(false) => {}
                                    None => match self.feasible(st, e)? { Feas::No => {} _ => return Err(Stop::Fork(e)) },
                                }
                            }
                            // zero excluded: a converted integer is at least 1
                            if iv.0 == 0.0 && self.tm.n(q).op == Op::FFromU { q = self.tm.flo(q, 1.0); }
                            let t = self.tm.fdiv(p, q);
                            t
                        }
                        FBin::Rem => return unsup("frem"),
                    };
                    let i = self.tm.fint[t as usize];
                    if !(i.0.is_finite() && i.1.is_finite()) && self.tm.fval(t).is_none() && *op != FBin::Div { return unsup("double range unbounded"); }
                    let v = self.mkv(t);
                    self.set(st, *d, v);
                }
            }
            I::FNeg(d, a) => { let x = self.opd(st, a); let t = self.fterm(&x); let r = self.tm.fneg(t); let v = self.mkv(r); self.set(st, *d, v); }
            I::Icmp(p, d, t, a, b) => {
                match t {
                    Ty::Int(_) | Ty::Ptr => {
                        let w = if let Ty::Int(w) = t { *w } else { 64 };
                        let x = self.opd(st, a);
                        let y = self.opd(st, b);
                        let mut v = self.icmp(*p, w, &x, &y);
                        if let V::T(c) = v {
                            // std's branchless sorting: each comparison is decided, as it is in sorting that branches
                            if let Some(k) = self.sort_decides(st, c)? { v = V::I(k as u64); }
                        }
                        self.set(st, *d, v);
                    }
                    Ty::Vec(n, e) => {
                        let w = e.bits() as u32;
                        let (x, y) = (self.opd(st, a), self.opd(st, b));
                        let (x, y) = match (x, y) { (V::Agg(x), V::Agg(y)) => (x, y), _ => return unsup("vector icmp") };
                        let v = (0..*n as usize).map(|i| self.icmp(*p, w, &x[i], &y[i])).collect();
                        self.set(st, *d, V::Agg(Rc::new(v)));
                    }
                    _ => return unsup("icmp type"),
                }
            }
            I::Fcmp(p, d, a, b) => { let x = self.opd(st, a); let y = self.opd(st, b); let v = self.fcmp(p, &x, &y); self.set(st, *d, v); }
            I::Cast(op, d, from, to, a) => {
                let mut x = self.opd(st, a);
                if let (V::T(c), Ty::Int(1)) = (&x, from) {
                    if self.tm.has_fp[*c as usize] {
                        // an integer made of a double comparison: decide it
                        let c = *c;
                        let n = self.tm.not(c);
                        let k = match self.not_in_pc(st, c) { Some(b) => b, None => if let Feas::No = self.feasible(st, c)? { false } else if let Feas::No = self.feasible(st, n)? { true } else { if self.in_region > 0 { return unsup("@region"); } return Err(Stop::Fork(c)); } };
                        x = V::I(k as u64);
                    }
                }
                let v = self.cast(st, *op, from, to, x)?;
                self.set(st, *d, v);
            }
            I::Select(d, t, c, a, b) => {
                let cv = self.opd(st, c);
                let x = self.opd(st, a);
                let y = self.opd(st, b);
                let v = match cv {
                    V::I(k) => if k & 1 == 1 { x } else { y },
                    V::T(ct) => {
                        match self.not_in_pc(st, ct) {
                            Some(true) => x,
                            Some(false) => y,
                            None => {
                                let same = match (&x, &y) { (V::I(p), V::I(q)) => p == q, (V::T(p), V::T(q)) => p == q, _ => false };
                                if same { x } else if self.tm.has_fp[ct as usize] && *t != Ty::Int(1) && (*t != Ty::F64 || self.in_region == 0) {
                                    // a choice driven by a double comparison: fork
                                    let n = self.tm.not(ct);
                                    let fa = self.feasible(st, ct)?;
                                    if let Feas::No = fa { y } else {
                                        let fb = self.feasible(st, n)?;
                                        if let Feas::No = fb { x } else { if self.in_region > 0 { return unsup("@region"); } return Err(Stop::Fork(ct)); }
                                    }
                                } else { self.select_v(ct, t, &x, &y)? }
                            }
                        }
                    }
                    V::Undef => x,
                    V::Agg(cs) => {
                        if let (Ty::Vec(_, e), V::Agg(x), V::Agg(y)) = (t, &x, &y) {
                            let mut v = vec![];
                            for i in 0..cs.len() { v.push(match &cs[i] { V::I(k) => if k & 1 == 1 { x[i].clone() } else { y[i].clone() }, V::T(c) => self.select_v(*c, e, &x[i], &y[i])?, _ => x[i].clone() }); }
                            V::Agg(Rc::new(v))
                        } else { return unsup("vector select"); }
                    }
                    _ => return unsup("select cond"),
                };
                self.set(st, *d, v);
            }
            I::Load(d, t, p) => { let p = self.opd(st, p); let v = self.load(st, t, &p)?; self.set(st, *d, v); }
            I::Store(t, v, p) => { let p = self.opd(st, p); let v = self.opd(st, v); self.store(st, t, &v, &p)?; }
            I::Gep(d, b, k, dynv) => {
                let mut p = self.opd(st, b);
                if *k != 0 { p = self.padd(&p, *k); }
                for (o, w, s) in dynv {
                    let v = self.opd(st, o);
                    let add = match v {
                        V::I(x) => { let sx = if *w < 64 { (((x << (64 - w)) as i64) >> (64 - w)) as u64 } else { x }; V::I(sx.wrapping_mul(*s)) }
                        V::T(t) => {
                            let t = self.tm.sext(t, 64);
                            match self.two_valued(t, 0) {
                                // a step by a condition (branchless sorting and merging): decide it, so that the pointer stays concrete
                                Some(c) => {
                                    let n = self.tm.not(c);
                                    let k = match self.not_in_pc(st, c) { Some(b) => b, None => if let Feas::No = self.feasible(st, c)? { false } else if let Feas::No = self.feasible(st, n)? { true } else { if self.in_region > 0 { return unsup("@region"); } return Err(Stop::Fork(c)); } };
                                    V::I((self.two_value(t, k) as u64).wrapping_mul(*s))
                                }
                                None => { let k = self.tm.c(*s as u128, 64); let m = self.tm.mul(t, k); self.mkv(m) }
                            }
                        }
                        _ => V::I(0),
                    };
                    p = self.bin(Bin::Add, 64, &p, &add)?;
                }
                self.set(st, *d, p);
            }
            I::Alloca(d, sz, al, n) => {
                let n = self.opd(st, n);
                let n = self.concrete(st, &n, 64)?;
                let a = self.alloc(st, sz * n, Kind::Stack, *al);
                st.frames.last_mut().unwrap().allocas.push(a);
                self.set(st, *d, V::I(a));
            }
            I::ExtractValue(d, a, ix) => {
                let mut v = self.opd(st, a);
                for i in ix { v = match v { V::Agg(x) => x[*i].clone(), V::Undef => V::Undef, _ => return unsup("extractvalue") }; }
                self.set(st, *d, v);
            }
            I::InsertValue(d, t, a, _t2, b, ix) => {
                let base = self.opd(st, a);
                let v = self.opd(st, b);
                let r = self.insert(t, base, v, ix)?;
                self.set(st, *d, r);
            }
            I::ExtractElt(d, a, i) => {
                let v = self.opd(st, a);
                let i = self.opd(st, i);
                let i = self.concrete(st, &i, 64)?;
                let v = match v { V::Agg(x) => x[i as usize].clone(), V::Undef => V::Undef, _ => return unsup("extractelement") };
                self.set(st, *d, v);
            }
            I::InsertElt(d, t, a, b, i) => {
                let base = self.opd(st, a);
                let v = self.opd(st, b);
                let i = self.opd(st, i);
                let i = self.concrete(st, &i, 64)?;
                let r = self.insert(t, base, v, &[i as usize])?;
                self.set(st, *d, r);
            }
            I::Freeze(d, a) => { let v = self.opd(st, a); let v = if let V::Undef = v { V::I(0) } else { v }; self.set(st, *d, v); }
            I::AtomicRmw(op, d, t, p, v) => {
                let p = self.opd(st, p);
                let w = t.bits() as u32;
                let v = self.opd(st, v);
                let old = self.load(st, t, &p)?;
                let nv = match op.as_str() {
                    "add" => self.bin(Bin::Add, w, &old, &v)?, "sub" => self.bin(Bin::Sub, w, &old, &v)?, "and" => self.bin(Bin::And, w, &old, &v)?, "or" => self.bin(Bin::Or, w, &old, &v)?, "xchg" => v,
                    _ => return unsup("atomicrmw"),
                };
                self.store(st, t, &nv, &p)?;
                self.set(st, *d, old);
            }
            I::CmpXchg(d, t, p, a, b) => {
                let p = self.opd(st, p);
                let w = t.bits() as u32;
                let a = self.opd(st, a);
                let b = self.opd(st, b);
                let old = self.load(st, t, &p)?;
                let e = self.icmp(Pred::Eq, w, &old, &a);
                match e { V::I(1) => self.store(st, t, &b, &p)?, V::I(_) => {} _ => return unsup("symbolic cmpxchg") }
                self.set(st, *d, V::Agg(Rc::new(vec![old, e])));
            }
            I::Br(l) => { let l = *l; return self.goto(st, l); }
            I::CondBr(c, a, b) => {
                let v = self.opd(st, c);
                let (a, b) = (*a, *b);
                return match v {
                    V::I(k) => self.goto(st, if k & 1 == 1 { a } else { b }),
                    V::T(t) => self.branch(st, t, a, b),
                    _ => self.goto(st, a),
                };
            }
            I::Switch(c, w, d, cases) => {
                let v = self.opd(st, c);
                match v {
                    V::I(k) => { let l = cases.iter().find(|x| x.0 == k as u128).map(|x| x.1).unwrap_or(*d); return self.goto(st, l); }
                    V::T(t) => {
                        if let Some(k) = self.conc_of(st, t) { let l = cases.iter().find(|x| x.0 == k as u128).map(|x| x.1).unwrap_or(*d); return self.goto(st, l); }
                        // peel off one case at a time
                        for (k, l) in cases {
                            let kt = self.tm.c(*k, *w);
                            let e = self.tm.eq(t, kt);
                            match self.not_in_pc(st, e) { Some(true) => return self.goto(st, *l), Some(false) => continue, None => {} }
                            if self.tm.cval(e) == Some(0) { continue; }
                            match self.feasible(st, e)? {
                                Feas::No => continue,
                                _ => {
                                    let ne = self.tm.not(e);
                                    match self.feasible(st, ne)? { Feas::No => return self.goto(st, *l), _ => {} }
                                    if self.in_region > 0 { return unsup("@region"); }
                                    return Err(Stop::Fork(e));
                                }
                            }
                        }
                        return self.goto(st, *d);
                    }
                    _ => return unsup("switch"),
                }
            }
            I::Ret(v) => {
                let v = match v { Some((t, o)) => self.opd(st, o), None => V::Undef };
                let fr = st.frames.pop().unwrap();
                for a in &fr.allocas { st.mem.remove(a); }
                if let Some(lo) = fr.allocas.first() { st.stack = lo - 32; }
                if st.frames.is_empty() { return Ok(()); }
                self.set(st, fr.ret_dst, v);
                if fr.ret_normal != u32::MAX { return self.goto(st, fr.ret_normal); }
                st.frames.last_mut().unwrap().ip += 1;
                return Ok(());
            }
            I::Unreachable => return Err(Stop::Panic("unreachable code reached".into())),
            I::Unsupported(s) => return unsup(s.clone()),
            I::Call { dst, ret, callee, name, args, noreturn, normal } => {
                return self.call(st, *dst, ret, callee, name, args, *noreturn, *normal);
            }
        }
        st.frames.last_mut().unwrap().ip += 1;
        Ok(())
    }

    /// inside std's sorting, the outcome of a comparison (its only one, or that of the path forked off)
    fn sort_decides(&mut self, st: &State, c: T) -> R<Option<bool>> {
        if !st.frames.last().unwrap().f.sort || self.tm.has_fp[c as usize] || self.tm.cval(c).is_some() { return Ok(None); }
        if let Some(b) = self.not_in_pc(st, c) { return Ok(Some(b)); }
        if let Feas::No = self.feasible(st, c)? { return Ok(Some(false)); }
        let n = self.tm.not(c);
        if let Feas::No = self.feasible(st, n)? { return Ok(Some(true)); }
        if self.in_region > 0 { return unsup("@region"); }
        Err(Stop::Fork(c))
    }
    fn select_v(&mut self, c: T, t: &Ty, x: &V, y: &V) -> R<V> {
        Ok(match t {
            Ty::Int(w) => { let a = self.term(x, *w); let b = self.term(y, *w); let r = self.tm.ite(c, a, b); self.mkv(r) }
            Ty::Ptr => { let a = self.term(x, 64); let b = self.term(y, 64); let r = self.tm.ite(c, a, b); self.mkv(r) }
            Ty::F64 => {
                let a = self.fterm(x);
                let b = self.fterm(y);
                for t in [a, b] { if let Some(f) = self.tm.fval(t) { if !f.is_finite() { if self.in_region > 0 { return unsup("@region"); } return Err(Stop::Fork(c)); } } }
                let r = self.tm.fite(c, a, b);
                self.mkv(r)
            }
            _ => return Err(Stop::Fork(c)),
        })
    }
    fn insert(&mut self, t: &Ty, base: V, v: V, ix: &[usize]) -> R<V> {
        if ix.is_empty() { return Ok(v); }
        let n = match t { Ty::Struct(f, _) => f.len(), Ty::Arr(n, _) | Ty::Vec(n, _) => *n as usize, _ => return unsup("insertvalue") };
        let mut a: Vec<V> = match base { V::Agg(a) => (*a).clone(), V::Undef => vec![V::Undef; n], _ => return unsup("insertvalue base") };
        let ft = t.field(ix[0]);
        let old = a[ix[0]].clone();
        a[ix[0]] = self.insert(&ft, old, v, &ix[1..])?;
        Ok(V::Agg(Rc::new(a)))
    }

    fn cast(&mut self, st: &State, op: CastOp, from: &Ty, to: &Ty, x: V) -> R<V> {
        if let (Ty::Vec(n, fe), Ty::Vec(_, te), V::Agg(a)) = (from, to, &x) {
            if op != CastOp::Bitcast {
                let mut v = vec![];
                for i in 0..*n as usize { v.push(self.cast(st, op, fe, te, a[i].clone())?); }
                return Ok(V::Agg(Rc::new(v)));
            }
        }
        Ok(match op {
            CastOp::Trunc | CastOp::ZExt | CastOp::SExt | CastOp::IntToPtr | CastOp::PtrToInt => {
                let fw = from.bits() as u32;
                let tw = to.bits() as u32;
                match x {
                    V::I(k) if tw <= 64 => {
                        let mk = if tw == 64 { u64::MAX } else { (1u64 << tw) - 1 };
                        let v = if op == CastOp::SExt { (((k << (64 - fw)) as i64) >> (64 - fw)) as u64 } else { k };
                        V::I(v & mk)
                    }
                    V::Undef => V::I(0),
                    v => {
                        let t = self.term(&v, fw);
                        let r = if op == CastOp::SExt { self.tm.sext(t, tw) } else { self.tm.resize(t, tw) };
                        self.mkv(r)
                    }
                }
            }
            CastOp::Bitcast => match (from, to) {
                (Ty::F64, Ty::Int(64)) => { let t = self.term(&x, 64); self.mkv(t) }
                (Ty::Int(64), Ty::F64) => { let t = self.fterm(&x); self.mkv(t) }
                (Ty::Vec(n, e), Ty::Int(w)) => {
                    let a = match x { V::Agg(a) => a, _ => return unsup("bitcast") };
                    let ew = e.bits() as u32;
                    let mut acc = self.term(&a[0], ew);
                    for i in 1..*n as usize { let h = self.term(&a[i], ew); acc = self.tm.concat(h, acc); }
                    let _ = w;
                    self.mkv(acc)
                }
                (f, t) if f == t => x,
                _ => return unsup(format!("bitcast {:?} to {:?}", from, to)),
            },
            CastOp::UiToFp | CastOp::SiToFp => {
                if *to != Ty::F64 { return unsup("float"); }
                let w = from.bits() as u32;
                match x {
                    V::I(k) => V::F(if op == CastOp::UiToFp { k as f64 } else { ((((k << (64 - w)) as i64) >> (64 - w)) as f64) }.to_bits()),
                    V::T(t) => {
                        if let Some(k) = self.conc_of(st, t) { return Ok(V::F(if op == CastOp::UiToFp { k as f64 } else { (((k as u64) << (64 - w)) as i64 >> (64 - w)) as f64 }.to_bits())); }
                        let rg = self.tm.rng(t);
                        let p2 = { let mut x = t; while self.tm.n(x).op == Op::ZExt { x = self.tm.n(x).a; } self.tm.n(x).op == Op::Shl };
                        if rg.1 - rg.0 <= self.cfg.fork_uitofp && !p2 && self.tm.w(t) > 1 { return Err(Stop::ForkVals(t)); }
                        let f = if op == CastOp::UiToFp { self.tm.ffromu(t) } else { self.tm.ffroms(t) };
                        self.mkv(f)
                    }
                    _ => V::F(0),
                }
            }
            CastOp::FpToUi | CastOp::FpToSi => match x {
                V::F(b) => { let f = f64::from_bits(b); let w = to.bits() as u32; let r = if op == CastOp::FpToUi { f as u64 } else { f as i64 as u64 }; V::I(if w == 64 { r } else { r & ((1 << w) - 1) }) }
                _ => return unsup("symbolic fptoint"),
            },
            CastOp::Other => return unsup("cast"),
        })
    }

    fn fresh(&mut self, st: &mut State, w: u32) -> V {
        let name = format!("x{}_{}", st.symvars.len(), w);
        let t = self.tm.var(&name, w);
        let vi = self.tm.n(t).k as u32;
        st.symvars.push(vi);
        V::T(t)
    }

    #[allow(clippy::too_many_arguments)]
    fn call(&mut self, st: &mut State, dst: u32, ret: &Ty, callee: &Opd, name: &Option<Rc<str>>, args: &[(Ty, Opd)], noreturn: bool, normal: u32) -> R<()> {
        let nm: Rc<str> = match name {
            Some(n) => n.clone(),
            None => {
                let p = self.opd(st, callee);
                let a = match p { V::I(a) => a, _ => return unsup("symbolic call target") };
                match self.m.faddr.get(&a) { Some(n) => n.clone(), None => return Err(Stop::Panic(format!("call of invalid address {:#x}", a))) }
            }
        };
        let mut av: Vec<V> = Vec::with_capacity(args.len());
        for (t, o) in args { let v = self.opd(st, o); av.push(v); }
        if noreturn || *self.m.noreturn.get(&nm).unwrap_or(&false) { return Err(Stop::Panic(short(&nm))); }
        if let Some(f) = self.m.func(&nm) {
            if st.frames.len() > 400 { return unsup("call depth"); }
            *self.funcs_run.entry(nm.clone()).or_insert(0) += 1;
            let mut regs = vec![V::Undef; f.nregs as usize];
            for (i, (r, _)) in f.params.iter().enumerate() { regs[*r as usize] = av[i].clone(); }
            st.frames.push(Frame { f, block: 0, ip: 0, regs, allocas: vec![], ret_dst: dst, ret_normal: normal });
            return Ok(());
        }
        let r = self.external(st, &nm, ret, &av, args)?;
        self.set(st, dst, r);
        if normal != u32::MAX { return self.goto(st, normal); }
        st.frames.last_mut().unwrap().ip += 1;
        Ok(())
    }

    fn external(&mut self, st: &mut State, nm: &str, ret: &Ty, a: &[V], args: &[(Ty, Opd)]) -> R<V> {
        let w = ret.bits() as u32;
        if let Some(n) = nm.strip_prefix("llvm.") {
            let base: Vec<&str> = n.split('.').collect();
            let key = if (base[0] == "fptoui" || base[0] == "fptosi") && base.len() > 1 && base[1] == "sat" { format!("{}.sat", base[0]) } else if base.len() >= 3 && base[1] == "with" { format!("{}.{}.{}", base[0], base[1], base[2]) } else if base[0] == "uadd" || base[0] == "usub" || base[0] == "sadd" || base[0] == "ssub" { format!("{}.{}", base[0], base[1]) } else { base[0].to_string() };
            return match key.as_str() {
                "lifetime" | "assume" | "experimental" | "dbg" | "invariant" | "donothing" | "prefetch" => Ok(V::Undef),
                "memcpy" | "memmove" => {
                    let n = self.concrete(st, &a[2], 64)?;
                    self.memcpy(st, &a[0], &a[1], n)?;
                    Ok(V::Undef)
                }
                "memset" => { let n = self.concrete(st, &a[2], 64)?; self.memset(st, &a[0], &a[1], n)?; Ok(V::Undef) }
                "ctlz" | "cttz" | "ctpop" | "bswap" | "bitreverse" | "abs" => {
                    if let V::Agg(_) = a[0] { return unsup(nm); }
                    let t = self.term(&a[0], w);
                    let r = match key.as_str() {
                        "ctlz" => self.tm.clz(t), "cttz" => self.tm.ctz(t), "ctpop" => self.tm.pop(t),
                        "bswap" => { let mut acc = self.tm.extract(t, 7, 0); for i in 1..w / 8 { let b = self.tm.extract(t, 8 * i + 7, 8 * i); acc = self.tm.concat(acc, b); } acc }
                        "bitreverse" => { let mut acc = self.tm.extract(t, 0, 0); for i in 1..w { let b = self.tm.extract(t, i, i); acc = self.tm.concat(acc, b); } acc }
                        _ => { let n = self.tm.neg(t); let z = self.tm.c(0, w); let s = self.tm.slt(t, z); self.tm.ite(s, n, t) }
                    };
                    Ok(self.mkv(r))
                }
                "umin" | "umax" | "smin" | "smax" => {
                    if let V::Agg(_) = a[0] { return unsup(nm); }
                    let (x, y) = (self.term(&a[0], w), self.term(&a[1], w));
                    let c = match key.as_str() { "umin" => self.tm.ult(x, y), "umax" => self.tm.ult(y, x), "smin" => self.tm.slt(x, y), _ => self.tm.slt(y, x) };
                    let c = match self.sort_decides(st, c)? { Some(k) => self.tm.c(k as u128, 1), None => c };
                    let r = self.tm.ite(c, x, y);
                    Ok(self.mkv(r))
                }
                "ucmp" | "scmp" => {
                    let iw = args[0].0.bits() as u32;
                    let (x, y) = (self.term(&a[0], iw), self.term(&a[1], iw));
                    let lt = if key == "ucmp" { self.tm.ult(x, y) } else { self.tm.slt(x, y) };
                    let gt = if key == "ucmp" { self.tm.ult(y, x) } else { self.tm.slt(y, x) };
                    let m1 = self.tm.c(mask(w), w);
                    let z = self.tm.c(0, w);
                    let o = self.tm.c(1, w);
                    let r = self.tm.ite(gt, o, z);
                    let r = self.tm.ite(lt, m1, r);
                    Ok(self.mkv(r))
                }
                "uadd.with.overflow" | "usub.with.overflow" | "umul.with.overflow" | "sadd.with.overflow" | "ssub.with.overflow" | "smul.with.overflow" => {
                    let iw = args[0].0.bits() as u32;
                    if iw > 64 { return unsup(nm); }
                    let (x, y) = (self.term(&a[0], iw), self.term(&a[1], iw));
                    let (r, o) = match key.as_str() {
                        "uadd.with.overflow" => {
                            let r = self.tm.add(x, y);
                            let o = if self.tm.rng(x).1 + self.tm.rng(y).1 <= mask(iw) { self.tm.ff() } else { self.tm.ult(r, x) };
                            (r, o)
                        }
                        "usub.with.overflow" => { let r = self.tm.sub(x, y); let o = self.tm.ult(x, y); (r, o) }
                        "umul.with.overflow" => {
                            let r = self.tm.mul(x, y);
                            let o = match self.tm.rng(x).1.checked_mul(self.tm.rng(y).1) { Some(p) if p <= mask(iw) => self.tm.ff(), _ => {
                                let (xx, yy) = (self.tm.zext(x, 2 * iw), self.tm.zext(y, 2 * iw));
                                let p = self.tm.mul(xx, yy);
                                let h = self.tm.extract(p, 2 * iw - 1, iw);
                                let z = self.tm.c(0, iw);
                                self.tm.ne(h, z)
                            } };
                            (r, o)
                        }
                        k => {
                            let ew = iw * 2;
                            let (xx, yy) = (self.tm.sext(x, ew), self.tm.sext(y, ew));
                            let full = match k { "sadd.with.overflow" => self.tm.add(xx, yy), "ssub.with.overflow" => self.tm.sub(xx, yy), _ => self.tm.mul(xx, yy) };
                            let r = self.tm.trunc(full, iw);
                            let back = self.tm.sext(r, ew);
                            let o = self.tm.ne(back, full);
                            (r, o)
                        }
                    };
                    let (r, o) = (self.mkv(r), self.mkv(o));
                    Ok(V::Agg(Rc::new(vec![r, o])))
                }
                "usub.sat" => { let (x, y) = (self.term(&a[0], w), self.term(&a[1], w)); let c = self.tm.ult(x, y); let z = self.tm.c(0, w); let s = self.tm.sub(x, y); let r = self.tm.ite(c, z, s); Ok(self.mkv(r)) }
                "uadd.sat" => { let (x, y) = (self.term(&a[0], w), self.term(&a[1], w)); let s = self.tm.add(x, y); let c = if self.tm.rng(x).1 + self.tm.rng(y).1 <= mask(w) { self.tm.ff() } else { self.tm.ult(s, x) }; let m = self.tm.c(mask(w), w); let r = self.tm.ite(c, m, s); Ok(self.mkv(r)) }
                "fshl" | "fshr" => {
                    let k = match &a[2] { V::I(k) => *k as u32 % w, _ => return unsup("symbolic funnel shift") };
                    let (x, y) = (self.term(&a[0], w), self.term(&a[1], w));
                    let k = if key == "fshr" { (w - k) % w } else { k };
                    if k == 0 { return Ok(if key == "fshr" { a[1].clone() } else { a[0].clone() }); }
                    let h = self.tm.extract(x, w - 1 - k, 0);
                    let l = self.tm.extract(y, w - 1, w - k);
                    let r = self.tm.concat(h, l);
                    Ok(self.mkv(r))
                }
                "is" => Ok(V::I(0)),
                "expect" => Ok(a[0].clone()),
                "threadlocal" => Ok(a[0].clone()),
                "log" | "fabs" | "floor" | "ceil" | "trunc" | "round" | "rint" | "sqrt" | "fmuladd" | "fma" | "minnum" | "maxnum" | "copysign" | "exp2" | "exp" | "pow" | "powi" | "log2" | "log10" | "maximumnum" | "minimumnum" | "ldexp" => {
                    if *ret != Ty::F64 { return unsup(nm); }
                    if key == "powi" || key == "ldexp" {
                        // a constant (base / factor) and a small exponent
                        let x = self.fterm(&a[0]);
                        let Some(x) = self.tm.fval(x) else { return unsup(format!("symbolic {}", nm)); };
                        let f = |e: i32| if key == "powi" { x.powi(e) } else { x * 2f64.powi(e) };
                        let e = self.term(&a[1], 32);
                        if let Some(k) = self.tm.cval(e) { return Ok(V::F(f(k as u32 as i32).to_bits())); }
                        let neg = self.tm.neg(e);
                        for (idx, sg) in [(e, 1), (neg, -1)] {
                            let hi = self.tm.rng(idx).1;
                            if hi <= 300 {
                                let id = self.tm.ftable((0..=hi as i32).map(|i| f(sg * i)).collect());
                                let r = self.tm.ftab(idx, id);
                                return Ok(self.mkv(r));
                            }
                        }
                        return unsup(format!("symbolic {}", nm));
                    }
                    let xs: Vec<T> = a.iter().map(|v| self.fterm(v)).collect();
                    if key == "exp2" && self.tm.fval(xs[0]).is_none() {
                        let n = *self.tm.n(xs[0]);
                        let (sg, k) = if n.op == Op::FNeg { (-1, *self.tm.n(n.a)) } else { (1, n) };
                        if k.op == Op::FFromU && self.tm.rng(k.a).1 <= 300 {
                            let hi = self.tm.rng(k.a).1 as i32;
                            let id = self.tm.ftable((0..=hi).map(|i| 2f64.powi(sg * i)).collect());
                            let r = self.tm.ftab(k.a, id);
                            return Ok(self.mkv(r));
                        }
                    }
                    let cs: Vec<Option<f64>> = xs.iter().map(|&t| self.tm.fval(t)).collect();
                    if cs.iter().all(|c| c.is_some()) && key != "powi" && key != "ldexp" {
                        let c: Vec<f64> = cs.iter().map(|c| c.unwrap()).collect();
                        let r = match key.as_str() {
                            "log" => c[0].ln(), "fabs" => c[0].abs(), "floor" => c[0].floor(), "ceil" => c[0].ceil(), "trunc" => c[0].trunc(), "round" => c[0].round(), "rint" => c[0].round_ties_even(), "sqrt" => c[0].sqrt(),
                            "fmuladd" | "fma" => c[0].mul_add(c[1], c[2]), "minnum" | "minimumnum" => c[0].min(c[1]), "maxnum" | "maximumnum" => c[0].max(c[1]), "copysign" => c[0].copysign(c[1]), "exp2" => c[0].exp2(), "exp" => c[0].exp(), "pow" => c[0].powf(c[1]), "log2" => c[0].log2(), _ => c[0].log10(),
                        };
                        return Ok(V::F(r.to_bits()));
                    }
                    match key.as_str() {
                        "fabs" => { let r = self.tm.fabs(xs[0]); Ok(self.mkv(r)) }
                        "log" => self.ln(st, xs[0]),
                        "floor" | "ceil" | "trunc" | "round" => {
                            // an integer per path, found by halving its range
                            if self.in_region != 0 { return unsup(format!("symbolic {}", nm)); }
                            let (lo, hi) = self.tm.fint[xs[0] as usize];
                            let up = key == "ceil" || key == "trunc" && hi <= 0.0;
                            if !(lo.abs() < 9e15 && hi.abs() < 9e15) || key == "round" && lo < 0.0 || key == "trunc" && lo < 0.0 && hi > 0.0 { return unsup(format!("symbolic {}", nm)); }
                            let f = |v: f64| if up { v.ceil() } else if key == "round" { (v + 0.5).floor() } else { v.floor() };
                            let (mut a, mut b) = (f(lo) - 1.0, f(hi) + 1.0);
                            while a < b {
                                // result < m or not
                                let m = ((a + b) / 2.0).floor() + 1.0;
                                let k = self.tm.fc(if key == "round" { m - 0.5 } else if up { m - 1.0 } else { m });
                                let c = self.tm.fcmp(if up { Op::FLe } else { Op::FLt }, xs[0], k);
                                let less = match self.not_in_pc(st, c) { Some(b) => b, None => {
                                    let n = self.tm.not(c);
                                    if let Feas::No = self.feasible(st, c)? { false } else if let Feas::No = self.feasible(st, n)? { true } else { return Err(Stop::Fork(c)); }
                                } };
                                if less { b = m - 1.0 } else { a = m }
                            }
                            Ok(V::F(a.to_bits()))
                        }
                        "minnum" | "maxnum" | "minimumnum" | "maximumnum" => {
                            for i in 0..2 { if let Some(f) = cs[i] { if f.is_nan() { return Ok(a[1 - i].clone()); } } }
                            let c = self.tm.fcmp(Op::FLe, xs[0], xs[1]);
                            let mx = key.starts_with("max");
                            if self.in_region == 0 {
                                let k = match self.not_in_pc(st, c) { Some(b) => b, None => {
                                    let n = self.tm.not(c);
                                    if let Feas::No = self.feasible(st, c)? { false } else if let Feas::No = self.feasible(st, n)? { true } else { return Err(Stop::Fork(c)); }
                                } };
                                let r = if k ^ mx { xs[0] } else { xs[1] };
                                return Ok(self.mkv(r));
                            }
                            let r = if mx { self.tm.fite(c, xs[1], xs[0]) } else { self.tm.fite(c, xs[0], xs[1]) };
                            Ok(self.mkv(r))
                        }
                        _ => unsup(format!("symbolic {}", nm)),
                    }
                }
                "fptoui.sat" | "fptosi.sat" => {
                    if w > 64 { return unsup(nm); }
                    match a[0] {
                        V::F(b) => {
                            let f = f64::from_bits(b);
                            let r = if key == "fptoui.sat" { (f as u64).min(mask(w) as u64) } else {
                                let (lo, hi) = (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1);
                                ((f as i64 as i128).clamp(lo, hi) as u128 & mask(w)) as u64
                            };
                            Ok(V::I(r))
                        }
                        _ => unsup("symbolic fptoint"),
                    }
                }
                "trap" => Err(Stop::Panic("trap".into())),
                "frameaddress" | "stacksave" | "stackrestore" | "returnaddress" => Ok(V::I(0)),
                _ => unsup(format!("intrinsic {}", nm)),
            };
        }
        match nm {
            "malloc" | "__rust_alloc" => { let n = self.concrete(st, &a[0], 64)?; if n > 1 << 32 { return unsup("huge allocation"); } Ok(V::I(self.alloc(st, n, Kind::Heap, 64))) }
            "calloc" => { let n = self.concrete(st, &a[0], 64)?; let m = self.concrete(st, &a[1], 64)?; if n * m > 1 << 32 { return unsup("huge allocation"); } Ok(V::I(self.alloc(st, n * m, Kind::Heap, 64))) }
            "realloc" => {
                let n = self.concrete(st, &a[1], 64)?;
                let p = self.concrete(st, &a[0], 64)?;
                let na = self.alloc(st, n, Kind::Heap, 64);
                if p != 0 {
                    let o = match st.mem.get(&p) { Some(o) => o.clone(), None => return Err(Stop::Panic("realloc of invalid pointer".into())) };
                    let k = o.size.min(n);
                    self.memcpy(st, &V::I(na), &V::I(p), k)?;
                    st.mem.remove(&p);
                }
                Ok(V::I(na))
            }
            "free" => {
                let p = self.concrete(st, &a[0], 64)?;
                if p != 0 { match st.mem.remove(&p) { Some(o) if o.kind == Kind::Heap => {} _ => return Err(Stop::Panic("free of invalid pointer".into())) } }
                Ok(V::Undef)
            }
            "posix_memalign" => {
                let al = self.concrete(st, &a[1], 64)?;
                let n = self.concrete(st, &a[2], 64)?;
                let p = self.alloc(st, n, Kind::Heap, al);
                self.store(st, &Ty::Ptr, &V::I(p), &a[0])?;
                Ok(V::I(0))
            }
            "memcpy" | "memmove" => { let n = self.concrete(st, &a[2], 64)?; self.memcpy(st, &a[0], &a[1], n)?; Ok(a[0].clone()) }
            "memset" => { let n = self.concrete(st, &a[2], 64)?; let v = match &a[1] { V::I(k) => V::I(k & 255), v => v.clone() }; self.memset(st, &a[0], &v, n)?; Ok(a[0].clone()) }
            "bcmp" | "memcmp" => {
                let n = self.concrete(st, &a[2], 64)?;
                if n > 4096 { return unsup("bcmp length"); }
                let mut acc = self.tm.tt();
                let mut conc: Option<i64> = Some(0);
                for i in 0..n {
                    let (p, q) = (self.padd(&a[0], i), self.padd(&a[1], i));
                    let x = self.load(st, &Ty::Int(8), &p)?;
                    let y = self.load(st, &Ty::Int(8), &q)?;
                    match (&x, &y, conc) { (V::I(x), V::I(y), Some(0)) => conc = Some(*x as i64 - *y as i64), (V::I(_), V::I(_), Some(_)) => {} _ => if conc == Some(0) || conc.is_none() { conc = None } }
                    let x = self.term(&x, 8);
                    let y = self.term(&y, 8);
                    let e = self.tm.eq(x, y);
                    acc = self.tm.and(acc, e);
                }
                if let Some(c) = conc { return Ok(V::I(c as u32 as u64)); }
                if nm == "memcmp" { return unsup("symbolic memcmp"); }
                let ne = self.tm.not(acc);
                let r = self.tm.zext(ne, 32);
                Ok(self.mkv(r))
            }
            "log" => { let t = self.fterm(&a[0]); if let Some(f) = self.tm.fval(t) { return Ok(V::F(f.ln().to_bits())); } self.ln(st, t) }
            // ---- harness interface
            "sym_param" => { let i = self.concrete(st, &a[0], 64)?; match self.cfg.params.get(i as usize) { Some(k) => Ok(V::I(*k)), None => unsup("missing parameter") } }
            "sym_u64" => Ok(self.fresh(st, 64)),
            "sym_u32" => Ok(self.fresh(st, 32)),
            "sym_bits" => {
                let n = self.concrete(st, &a[0], 32)? as u32;
                if n == 0 { return Ok(V::I(0)); }
                let v = self.fresh(st, n);
                if let V::T(t) = v { let t = self.tm.zext(t, 64); return Ok(self.mkv(t)); }
                unreachable!()
            }
            "sym_range" => {
                let (lo, hi) = (self.concrete(st, &a[0], 64)?, self.concrete(st, &a[1], 64)?);
                if lo > hi { return unsup("empty range"); }
                if lo == hi { st.symvars.push({ let t = self.tm.range_var(&format!("r{}_{}_{}", st.symvars.len(), lo, hi), 1, 0, 1); self.tm.n(t).k as u32 }); return Ok(V::I(lo)); }
                let w = 64 - hi.leading_zeros();
                let t = self.tm.range_var(&format!("r{}_{}_{}", st.symvars.len(), lo, hi), w, lo as u128, hi as u128);
                st.symvars.push(self.tm.n(t).k as u32);
                let t = self.tm.zext(t, 64);
                Ok(self.mkv(t))
            }
            "sym_assume" => {
                match &a[0] {
                    V::I(k) => if k & 1 == 1 { Ok(V::Undef) } else { Err(Stop::Infeasible) },
                    V::T(t) => {
                        let t = *t;
                        if self.in_region > 0 { return unsup("@region"); }
                        match self.feasible(st, t)? { Feas::No => Err(Stop::Infeasible), fe => { let m = yes(&fe).unwrap(); self.add_pc(st, t, m); Ok(V::Undef) } }
                    }
                    _ => Ok(V::Undef),
                }
            }
            "sym_assert" => {
                if self.in_region > 0 { return unsup("@region"); }
                let id = self.concrete(st, &a[1], 32)? as u32;
                self.n_asserts += 1;
                *self.assert_ids.entry(id).or_insert(0) += 1;
                match &a[0] {
                    V::I(k) => {
                        if k & 1 == 1 { self.n_discharged += 1; self.n_trivial += 1; return Ok(V::Undef); }
                        self.record_violation(st, "assert", id, &[], None);
                        Err(Stop::Infeasible)
                    }
                    V::T(t) => {
                        let t = *t;
                        let (n, fe) = self.refute(st, t)?;
                        match fe {
                            Feas::No => { self.n_discharged += 1; }
                            Feas::Yes(m) => {
                                if self.cfg.verbose { eprintln!("assert {} violated", id); }
                                self.record_violation(st, "assert", id, &[n], Some((*m).clone()));
                                match self.feasible(st, t)? { Feas::No => return Err(Stop::Infeasible), fe => { let m = yes(&fe).unwrap(); self.add_pc(st, t, m); } }
                            }
                            Feas::Maybe => {
                                if self.cfg.verbose {
                                    eprintln!("assert {} maybe violated: {}", id, self.tm.show(n, 9));
                                    if std::env::var("SHOWPC").is_ok() { for &p in st.pc.iter().filter(|&&p| self.tm.has_fp[p as usize]) { eprintln!("   pc {}", self.tm.show(p, 6)); } }
                                }
                                self.record_violation(st, "assert", id, &[n], None);
                                let m = st.model.clone();
                                self.add_pc(st, t, None);
                                if let Some(mm) = m { if self.holds(&mm, &[t]) { st.model = Some(mm); } }
                            }
                        }
                        Ok(V::Undef)
                    }
                    _ => Ok(V::Undef),
                }
            }
            "sym_reach" => { let id = self.concrete(st, &a[0], 32)? as u32; if st.model.is_some() { *self.reach.entry(id).or_insert(0) += 1; } else if self.reach.get(&id).cloned().unwrap_or(0) == 0 { if self.realise(st, &[]).is_some() { *self.reach.entry(id).or_insert(0) += 1; } } Ok(V::Undef) }
            "sym_note" => { let id = self.concrete(st, &a[0], 32)? as u32; st.notes.push((id, a[1].clone(), false)); Ok(V::Undef) }
            "sym_notef" => { let id = self.concrete(st, &a[0], 32)? as u32; st.notes.push((id, a[1].clone(), true)); Ok(V::Undef) }
            "sym_concretize" => { let k = self.concrete(st, &a[0], 64)?; Ok(V::I(k)) }
            "sym_is_symbolic" => Ok(V::I(1)),
            "sym_bail" => { let id = self.concrete(st, &a[0], 32)?; unsup(format!("harness cannot handle this state ({})", id)) }
            "__errno_location" => { if st.errno == 0 { st.errno = self.alloc(st, 8, Kind::Heap, 8); } Ok(V::I(st.errno)) }
            _ => unsup(format!("external {}", nm)),
        }
    }

    /// natural logarithm of a symbolic double
    fn ln(&mut self, st: &State, x: T) -> R<V> {
        let iv = self.tm.fint[x as usize];
        let z = self.tm.fc(0.0);
        if iv.0 <= 0.0 {
            let neg = self.tm.fcmp(Op::FLt, x, z);
            match self.not_in_pc(st, neg) {
                Some(true) => return Ok(V::F(f64::NAN.to_bits())),
                Some(false) => {}
                None => match self.feasible(st, neg)? { Feas::No => {} _ => return Err(Stop::Fork(neg)) },
            }
            let zero = self.tm.fcmp(Op::FEq, x, z);
            match self.not_in_pc(st, zero) {
                Some(true) => return Ok(V::F(f64::NEG_INFINITY.to_bits())),
                Some(false) => {}
                None => match self.feasible(st, zero)? { Feas::No => {} _ => return Err(Stop::Fork(zero)) },
            }
        }
        let mut x = x;
        if iv.0 <= 0.0 {
            for k in [1.0 / (1u64 << 60) as f64] {
                let b = self.tm.fc(k);
                let small = self.tm.fcmp(Op::FLt, x, b);
                let no = match self.not_in_pc(st, small) { Some(b) => !b, None => matches!(self.feasible(st, small)?, Feas::No) };
                if no { x = self.tm.flo(x, k); break; }
            }
        }
        let r = self.tm.fln(x);
        Ok(self.mkv(r))
    }
}

impl Default for Obj { fn default() -> Self { Obj::new(0, 0, Kind::Heap) } }

fn newlog_ok(tm: &Terms, log: &[LogEnt], dof: u64, n: u64) -> bool {
    log.iter().all(|e| { let (lo, hi) = tm.rng(e.off); (dof + n) as u128 <= lo || dof as u128 >= hi + e.len as u128 })
}

fn yes(f: &Feas) -> Option<Option<Rc<Model>>> { match f { Feas::No => None, Feas::Yes(m) => Some(Some(m.clone())), Feas::Maybe => Some(None) } }

pub fn short(n: &str) -> String {
    // last path components of a v0-mangled name
    let mut out = vec![];
    let b: Vec<char> = n.chars().collect();
    let mut i = 0;
    while i < b.len() {
        if b[i].is_ascii_digit() {
            let mut l = 0usize;
            let mut j = i;
            while j < b.len() && b[j].is_ascii_digit() { l = l * 10 + b[j] as usize - '0' as usize; j += 1; if l > 200 { break; } }
            if j < b.len() && b[j] == '_' { j += 1; }
            if l >= 3 && l <= 60 && j + l <= b.len() && b[j..j + l].iter().all(|c| c.is_alphanumeric() || *c == '_') && (b[j].is_alphabetic() || b[j] == '_') {
                out.push(b[j..j + l].iter().collect::<String>());
                i = j + l;
                continue;
            }
        }
        i += 1;
    }
    if out.is_empty() { n.to_string() } else { out.join("::") }
}
