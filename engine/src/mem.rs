//! Memory objects: concrete bytes with an overlay of symbolic cells and a log of writes at symbolic offsets.
use crate::term::*;
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum V { I(u64), T(T), F(u64), Agg(Rc<Vec<V>>), Undef }

#[derive(Clone)]
pub struct LogEnt { pub guard: T, pub off: T, pub val: T, pub len: u8 }

#[derive(Clone)]
pub struct Obj {
    pub base: u64,
    pub size: u64,
    pub bytes: Vec<u8>,
    pub sym: BTreeMap<u32, (T, u8)>,
    pub log: Rc<Vec<LogEnt>>,
    pub kind: Kind,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind { Stack, Heap, Global }

impl Obj {
    pub fn new(base: u64, size: u64, kind: Kind) -> Obj {
        Obj { base, size, bytes: vec![0; size as usize], sym: BTreeMap::new(), log: Rc::new(vec![]), kind }
    }

    /// cut cells so that none straddles `at`
    fn split_at(&mut self, tm: &mut Terms, at: u32) {
        let (o, t, l) = match self.sym.range(..at).next_back() { Some((&o, &(t, l))) if o + l as u32 > at => (o, t, l), _ => return };
        let t = if tm.is_fp(t) { tm.fbits(t) } else { t };
        let k = at - o; // bytes in the low part
        let lo = tm.extract(t, 8 * k - 1, 0);
        let hi = tm.extract(t, 8 * l as u32 - 1, 8 * k);
        self.sym.insert(o, (lo, k as u8));
        self.sym.insert(at, (hi, l - k as u8));
        // constants inside
        self.normalise(tm, o);
        self.normalise(tm, at);
    }
    fn normalise(&mut self, tm: &Terms, o: u32) {
        if let Some(&(t, l)) = self.sym.get(&o) {
            if let Some(k) = tm.cval(t) {
                self.sym.remove(&o);
                for i in 0..l as usize { self.bytes[o as usize + i] = (k >> (8 * i)) as u8; }
            } else if let Some(f) = tm.fval(t) {
                self.sym.remove(&o);
                let k = f.to_bits();
                for i in 0..l as usize { self.bytes[o as usize + i] = (k >> (8 * i)) as u8; }
            }
        }
    }
    pub fn clear_range(&mut self, tm: &mut Terms, off: u32, len: u32) {
        if self.sym.is_empty() || len == 0 { return; }
        self.split_at(tm, off);
        self.split_at(tm, off + len);
        let ks: Vec<u32> = self.sym.range(off..off + len).map(|x| *x.0).collect();
        for k in ks { self.sym.remove(&k); }
    }
    pub fn write_bytes(&mut self, tm: &mut Terms, off: u64, b: &[u8]) {
        self.clear_range(tm, off as u32, b.len() as u32);
        self.bytes[off as usize..off as usize + b.len()].copy_from_slice(b);
    }
    pub fn write_term(&mut self, tm: &mut Terms, off: u64, t: T, len: u8) {
        self.clear_range(tm, off as u32, len as u32);
        self.sym.insert(off as u32, (t, len));
        self.normalise(tm, off as u32);
    }
    /// value without the log; len <= 16
    pub fn read_base(&self, tm: &mut Terms, off: u64, len: u64) -> V {
        let o = off as u32;
        let l = len as u32;
        if !self.sym.is_empty() {
            if let Some(&(t, cl)) = self.sym.get(&o) {
                if cl as u32 == l { return V::T(t); }
            }
            let mut over = false;
            if let Some((&so, &(_, sl))) = self.sym.range(..o).next_back() { if so + sl as u32 > o { over = true; } }
            if self.sym.range(o..o + l).next().is_some() { over = true; }
            if over {
                // assemble, least significant part first
                let mut acc: Option<T> = None;
                let mut p = o;
                while p < o + l {
                    let cell = self.sym.range(..=p).next_back().filter(|(&so, &(_, sl))| so + sl as u32 > p).map(|(&so, &(t, sl))| (so, t, sl as u32));
                    let part = if let Some((so, t, sl)) = cell {
                        let t = if tm.is_fp(t) { tm.fbits(t) } else { t };
                        let from = p - so;
                        let to = (o + l - so).min(sl);
                        let e = tm.extract(t, 8 * to - 1, 8 * from);
                        p = so + to;
                        e
                    } else {
                        let nx = self.sym.range(p..).next().map(|x| *x.0).unwrap_or(u32::MAX).min(o + l);
                        let mut k: u128 = 0;
                        for i in 0..(nx - p) { k |= (self.bytes[(p + i) as usize] as u128) << (8 * i); }
                        let e = tm.c(k, 8 * (nx - p));
                        p = nx;
                        e
                    };
                    acc = Some(match acc { None => part, Some(lo) => tm.concat(part, lo) });
                }
                return V::T(acc.unwrap());
            }
        }
        let mut k: u128 = 0;
        for i in 0..len as usize { k |= (self.bytes[off as usize + i] as u128) << (8 * i); }
        if len <= 8 { V::I(k as u64) } else { V::T(tm.c(k, 8 * len as u32)) }
    }
    pub fn read(&self, tm: &mut Terms, off: u64, len: u64) -> Result<V, String> {
        let b = self.read_base(tm, off, len);
        if self.log.is_empty() { return Ok(b); }
        let w = 8 * len as u32;
        let mut v = match b { V::I(k) => tm.c(k as u128, w), V::T(t) => t, _ => unreachable!() };
        let ot = tm.c(off as u128, 64);
        for e in self.log.clone().iter() {
            if e.len as u64 != len {
                // provably disjoint?
                if disjoint(tm, e, off, len) { continue; }
                return Err("mixed-width access to a symbolically indexed buffer".into());
            }
            let q = tm.eq(e.off, ot);
            let c = tm.and(q, e.guard);
            v = tm.ite(c, e.val, v);
        }
        Ok(V::T(v))
    }
    /// write at a concrete offset, honouring the log
    pub fn store(&mut self, tm: &mut Terms, off: u64, v: &V, len: u64) {
        if !self.log.is_empty() && !self.log.iter().all(|e| disjoint_ref(tm, e, off, len)) {
            let w = 8 * len as u32;
            let val = match v { V::I(k) => tm.c(*k as u128, w), V::T(t) => if tm.is_fp(*t) { tm.fbits(*t) } else { *t }, V::F(b) => tm.c(*b as u128, 64), _ => tm.c(0, w) };
            let g = tm.tt();
            let o = tm.c(off as u128, 64);
            Rc::make_mut(&mut self.log).push(LogEnt { guard: g, off: o, val, len: len as u8 });
            return;
        }
        match v {
            V::I(k) => { let b = k.to_le_bytes(); self.write_bytes(tm, off, &b[..len as usize]); }
            V::F(k) => { let b = k.to_le_bytes(); self.write_bytes(tm, off, &b[..len as usize]); }
            V::T(t) => {
                let t = *t;
                let w = tm.w(t);
                let t = if w != 0 && (w as u64) < 8 * len { tm.zext(t, 8 * len as u32) } else { t };
                self.write_term(tm, off, t, len as u8);
            }
            _ => {}
        }
    }
}

fn disjoint(tm: &mut Terms, e: &LogEnt, off: u64, len: u64) -> bool { disjoint_ref(tm, e, off, len) }
fn disjoint_ref(tm: &Terms, e: &LogEnt, off: u64, len: u64) -> bool {
    let (lo, hi) = tm.rng(e.off);
    (off as u128 + len as u128) <= lo || off as u128 > hi + e.len as u128 - 1
}

impl Obj {
    pub fn clear_edges(&mut self, tm: &mut Terms, a: u32, b: u32) { self.split_at(tm, a); self.split_at(tm, b); }
}
