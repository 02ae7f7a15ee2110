//! Hash-consed terms: bit-vectors (width 1 doubles as Bool) and doubles.
use std::collections::BTreeMap;
#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl std::hash::Hasher for Fx {
    fn finish(&self) -> u64 { self.0 ^ (self.0 >> 29) }
    fn write(&mut self, b: &[u8]) { for x in b { self.write_u64(*x as u64); } }
    fn write_u8(&mut self, i: u8) { self.write_u64(i as u64) }
    fn write_u32(&mut self, i: u32) { self.write_u64(i as u64) }
    fn write_u64(&mut self, i: u64) { self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517c_c1b7_2722_0a95); }
    fn write_u128(&mut self, i: u128) { self.write_u64(i as u64); self.write_u64((i >> 64) as u64) }
    fn write_usize(&mut self, i: usize) { self.write_u64(i as u64) }
}
pub type HashMap<K, V> = std::collections::HashMap<K, V, std::hash::BuildHasherDefault<Fx>>;
pub type HashSet<K> = std::collections::HashSet<K, std::hash::BuildHasherDefault<Fx>>;
use std::rc::Rc;

pub type T = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const, // k
    Var,   // k = variable index
    Add, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Not, Neg,
    Shl, LShr, AShr,
    Eq, Ult, Slt,
    Ite,
    Extract, // k = lo
    Concat,  // a = hi part, b = lo part
    ZExt, SExt,
    Clz, Ctz, Pop,
    Table, // a = idx, k = table id (bv table)
    // doubles (w == 0)
    FConst, // k = bits
    FAdd, FSub, FMul, FDiv, FNeg, FAbs, FLn,
    FLo, // a, known on this path to be at least k (bits)
    FFromU, FFromS,
    FTab, // a = idx, k = table id
    FIte,
    FFromBits,
    // bv / bool results over doubles
    FEq, FLt, FLe,
    FBits,
}
use Op::*;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u8, // 0 = double
    pub a: T,
    pub b: T,
    pub c: T,
    pub k: u128,
}

pub const NIL: T = u32::MAX;

pub fn mask(w: u32) -> u128 {
    if w >= 128 { u128::MAX } else { (1u128 << w) - 1 }
}

pub type Model = HashMap<u32, u128>;

#[derive(Clone, Copy, Debug)]
pub enum Seg {
    C(u128),      // constant
    E(T, u32),    // base term, lo
}

pub struct Terms {
    pub nodes: Vec<Node>,
    map: HashMap<Node, T>,
    pub range: Vec<(u128, u128)>,
    pub fint: Vec<(f64, f64)>, // interval of doubles
    pub vars: Vec<(String, u8)>, // name, width
    pub tabs: Vec<Rc<Vec<u128>>>,
    pub ftabs: Vec<Rc<Vec<f64>>>,
    tabmap: HashMap<Vec<u128>, u32>,
    ftabmap: HashMap<Vec<u64>, u32>,
    extract_memo: HashMap<(T, u32, u32), T>,
    /// variables confined to a range
    pub var_range: HashMap<u32, (u128, u128)>,
    /// terms whose lower bits a term is
    low_of: HashMap<T, Vec<T>>,
    eq_memo: HashMap<(T, T), T>,
    varsets: HashMap<T, Rc<Vec<u32>>>,
    pub has_fp: Vec<bool>,
    pub pow2tab: u32,
}

pub type Lin = (BTreeMap<T, u128>, u128);
fn lin_add(a: &Lin, b: &Lin, k: u128, w: u32) -> Lin {
    let mut r = a.clone();
    for (t, c) in b.0.iter() {
        let e = r.0.entry(*t).or_insert(0);
        *e = e.wrapping_add(c.wrapping_mul(k)) & mask(w);
        if *e == 0 { r.0.remove(t); }
    }
    r.1 = r.1.wrapping_add(b.1.wrapping_mul(k)) & mask(w);
    r
}

impl Terms {
    pub fn new() -> Self {
        let mut t = Terms {
            nodes: vec![], map: HashMap::default(), range: vec![], fint: vec![], vars: vec![], tabs: vec![], ftabs: vec![],
            tabmap: HashMap::default(), ftabmap: HashMap::default(), extract_memo: HashMap::default(), low_of: HashMap::default(), var_range: HashMap::default(), varsets: HashMap::default(), eq_memo: HashMap::default(),
            has_fp: vec![], pow2tab: 0,
        };
        let p: Vec<f64> = (0..64).map(|i| 1.0 / (1u64 << i) as f64).collect();
        t.pow2tab = t.ftable(p);
        t
    }
    pub fn n(&self, t: T) -> &Node { &self.nodes[t as usize] }
    pub fn w(&self, t: T) -> u32 { self.nodes[t as usize].w as u32 }
    pub fn is_fp(&self, t: T) -> bool { self.nodes[t as usize].w == 0 }
    pub fn cval(&self, t: T) -> Option<u128> {
        let n = self.n(t);
        if n.op == Const { Some(n.k) } else { None }
    }
    pub fn fval(&self, t: T) -> Option<f64> {
        let n = self.n(t);
        if n.op == FConst { Some(f64::from_bits(n.k as u64)) } else { None }
    }
    pub fn rng(&self, t: T) -> (u128, u128) { self.range[t as usize] }

    fn mk(&mut self, n: Node) -> T {
        if let Some(&t) = self.map.get(&n) { return t; }
        let r = self.calc_range(&n);
        if n.w != 0 && n.op != Const && r.0 == r.1 {
            let c = self.c(r.0, n.w as u32);
            self.map.insert(n, c);
            return c;
        }
        let t = self.nodes.len() as T;
        let fi = self.calc_fint(&n);
        let hf = n.w == 0 || [n.a, n.b, n.c].iter().any(|&x| x != NIL && self.has_fp[x as usize]);
        self.nodes.push(n);
        self.range.push(r);
        self.fint.push(fi);
        self.has_fp.push(hf);
        self.map.insert(n, t);
        t
    }
    fn m(&mut self, op: Op, w: u32, a: T, b: T, c: T, k: u128) -> T {
        self.mk(Node { op, w: w as u8, a, b, c, k })
    }

    fn calc_range(&self, n: &Node) -> (u128, u128) {
        if n.w == 0 { return (0, 0); }
        let w = n.w as u32;
        let full = (0, mask(w));
        let r = |t: T| self.range[t as usize];
        match n.op {
            Const => (n.k, n.k),
            Var => self.var_range.get(&(n.k as u32)).copied().unwrap_or(full),
            Add => {
                let (a, b) = (r(n.a), r(n.b));
                if w < 127 {
                    let (lo, hi) = (a.0 + b.0, a.1 + b.1);
                    if lo >> w == hi >> w { return (lo & mask(w), hi & mask(w)); }
                }
                // x + (-c) with x >= c
                if let Some(k) = self.cval(n.b) {
                    if w < 128 {
                        let neg = (mask(w) - k + 1) & mask(w);
                        if neg <= a.0 { return (a.0 - neg, a.1 - neg); }
                    }
                }
                full
            }
            Neg => { let a = r(n.a); if a.0 > 0 && w < 128 { (mask(w) + 1 - a.1, mask(w) + 1 - a.0) } else { full } }
            Mul => {
                let (a, b) = (r(n.a), r(n.b));
                match a.1.checked_mul(b.1) { Some(h) if h <= mask(w) => (a.0 * b.0, h), _ => full }
            }
            UDiv => {
                let (a, b) = (r(n.a), r(n.b));
                if b.0 > 0 { (a.0 / b.1, a.1 / b.0) } else { full }
            }
            URem => {
                let (a, b) = (r(n.a), r(n.b));
                if b.0 > 0 { (0, a.1.min(b.1 - 1)) } else { (0, a.1) }
            }
            And => (0, r(n.a).1.min(r(n.b).1)),
            Or => {
                let (a, b) = (r(n.a), r(n.b));
                let h = a.1 | b.1;
                let bits = 128 - h.leading_zeros();
                (a.0.max(b.0), mask(bits))
            }
            Xor => {
                let h = r(n.a).1 | r(n.b).1;
                (0, mask(128 - h.leading_zeros()))
            }
            Not => { let a = r(n.a); (mask(w) - a.1, mask(w) - a.0) }
            LShr => {
                let (a, b) = (r(n.a), r(n.b));
                (if b.1 >= 128 { 0 } else { a.0 >> b.1 }, if b.0 >= 128 { 0 } else { a.1 >> b.0 })
            }
            Shl => {
                let (a, b) = (r(n.a), r(n.b));
                if b.1 < 128 && a.1 != 0 && a.1.leading_zeros() as u128 > b.1 && (a.1 << b.1) <= mask(w) { (a.0 << b.0, a.1 << b.1) } else { full }
            }
            Ite => { let (a, b) = (r(n.b), r(n.c)); (a.0.min(b.0), a.1.max(b.1)) }
            ZExt => r(n.a),
            Concat => {
                let lw = self.w(n.b);
                let (a, b) = (r(n.a), r(n.b));
                ((a.0 << lw) | b.0, (a.1 << lw) | b.1)
            }
            Extract => {
                // low extract of small value
                let a = r(n.a);
                if n.k == 0 && a.1 <= mask(w) { a } else if a.1 >> n.k <= mask(w) { (a.0 >> n.k, a.1 >> n.k) } else { full }
            }
            Clz => {
                let a = r(n.a);
                let ww = self.w(n.a);
                let lz = |x: u128| (x.leading_zeros() - (128 - ww)) as u128;
                (lz(a.1), lz(a.0))
            }
            Ctz => (0, self.w(n.a) as u128),
            Pop => (0, self.w(n.a) as u128),
            // the order of positive doubles is that of their representations
            FBits => { let f = self.fint[n.a as usize]; if f.0 > 0.0 && f.1 >= f.0 { (f.0.to_bits() as u128, f.1.to_bits() as u128) } else { full } }
            Table => {
                let t = &self.tabs[n.k as usize];
                let i = r(n.a);
                let s = &t[(i.0 as usize).min(t.len() - 1)..=(i.1 as usize).min(t.len() - 1)];
                (*s.iter().min().unwrap(), *s.iter().max().unwrap())
            }
            _ => full,
        }
    }

    fn calc_fint(&self, n: &Node) -> (f64, f64) {
        if n.w != 0 { return (0.0, 0.0); }
        let f = |t: T| self.fint[t as usize];
        // rounding is monotone: operations on the ends of an interval bound the rounded operation on everything in it
        let four = |v: [f64; 4]| {
            if v.iter().any(|x| x.is_nan()) { return (f64::NEG_INFINITY, f64::INFINITY); }
            (v.iter().cloned().fold(f64::INFINITY, f64::min), v.iter().cloned().fold(f64::NEG_INFINITY, f64::max))
        };
        match n.op {
            FConst => { let v = f64::from_bits(n.k as u64); (v, v) }
            FAdd => { let (a, b) = (f(n.a), f(n.b)); (a.0 + b.0, a.1 + b.1) }
            FSub => { let (a, b) = (f(n.a), f(n.b)); (a.0 - b.1, a.1 - b.0) }
            FMul => { let (a, b) = (f(n.a), f(n.b)); four([a.0 * b.0, a.0 * b.1, a.1 * b.0, a.1 * b.1]) }
            FDiv => {
                let (a, b) = (f(n.a), f(n.b));
                if b.0 > 0.0 || b.1 < 0.0 { four([a.0 / b.0, a.0 / b.1, a.1 / b.0, a.1 / b.1]) } else { (f64::NEG_INFINITY, f64::INFINITY) }
            }
            FNeg => { let a = f(n.a); (-a.1, -a.0) }
            FLo => { let a = f(n.a); let l = f64::from_bits(n.k as u64); (a.0.max(l), a.1.max(l)) }
            FAbs => { let a = f(n.a); if a.0 >= 0.0 { a } else if a.1 <= 0.0 { (-a.1, -a.0) } else { (0.0, a.1.max(-a.0)) } }
            FLn => { let a = f(n.a); let (l, h) = (if a.0 <= 0.0 { f64::NEG_INFINITY } else { a.0.ln() }, if a.1 <= 0.0 { f64::NEG_INFINITY } else { a.1.ln() });
                (l - l.abs() * 1e-14, h + h.abs() * 1e-14) }
            FFromU => { let r = self.range[n.a as usize]; (r.0 as f64, r.1 as f64) }
            FFromS => { (-(2f64.powi(self.w(n.a) as i32 - 1)), 2f64.powi(self.w(n.a) as i32 - 1)) }
            FFromBits => { let r = self.range[n.a as usize]; if r.1 <= f64::INFINITY.to_bits() as u128 { (f64::from_bits(r.0 as u64), f64::from_bits(r.1 as u64)) } else { (f64::NEG_INFINITY, f64::INFINITY) } }
            FTab => {
                let t = &self.ftabs[n.k as usize];
                let i = self.range[n.a as usize];
                let s = &t[(i.0 as usize).min(t.len() - 1)..=(i.1 as usize).min(t.len() - 1)];
                (s.iter().cloned().fold(f64::INFINITY, f64::min), s.iter().cloned().fold(f64::NEG_INFINITY, f64::max))
            }
            FIte => {
                let (a, b) = (f(n.b), f(n.c));
                let c = self.nodes[n.a as usize];
                if c.op == FLe || c.op == FLt {
                    if c.a == n.b && c.b == n.c { return (a.0.min(b.0), a.1.min(b.1)); }
                    if c.a == n.c && c.b == n.b { return (a.0.max(b.0), a.1.max(b.1)); }
                }
                (a.0.min(b.0), a.1.max(b.1))
            }
            _ => (f64::NEG_INFINITY, f64::INFINITY),
        }
    }

    /// for diagnostics
    pub fn show(&self, t: T, depth: u32) -> String {
        let n = self.nodes[t as usize];
        match n.op {
            Const => format!("{}", n.k),
            FConst => format!("{:?}", f64::from_bits(n.k as u64)),
            Var => format!("v{}", n.k),
            _ if depth == 0 => format!("#{}", t),
            FAdd if self.sum_len(t) > 3 => format!("sum#{}[{}..{}]", t, self.fint[t as usize].0, self.fint[t as usize].1),
            _ => {
                let mut s = format!("({:?}", n.op);
                for x in [n.a, n.b, n.c] { if x != NIL { s.push(' '); s.push_str(&self.show(x, depth - 1)); } }
                s.push(')');
                s
            }
        }
    }
    fn sum_len(&self, t: T) -> usize { let n = self.nodes[t as usize]; if n.op == FAdd { 1 + self.sum_len(n.a) } else { 1 } }

    // ---- constructors -------------------------------------------------
    pub fn c(&mut self, k: u128, w: u32) -> T {
        debug_assert!(w >= 1 && w <= 128);
        self.m(Const, w, NIL, NIL, NIL, k & mask(w))
    }
    pub fn tt(&mut self) -> T { self.c(1, 1) }
    pub fn ff(&mut self) -> T { self.c(0, 1) }
    pub fn fc(&mut self, f: f64) -> T { self.m(FConst, 0, NIL, NIL, NIL, f.to_bits() as u128) }
    pub fn var(&mut self, name: &str, w: u32) -> T {
        let i = match self.vars.iter().position(|v| v.0 == name) {
            Some(i) => { assert_eq!(self.vars[i].1 as u32, w, "var {} width", name); i }
            None => { self.vars.push((name.to_string(), w as u8)); self.vars.len() - 1 }
        };
        self.m(Var, w, NIL, NIL, NIL, i as u128)
    }
    /// a variable confined to lo..=hi; the solver is told with its declaration
    pub fn range_var(&mut self, name: &str, w: u32, lo: u128, hi: u128) -> T {
        let i = self.vars.iter().position(|v| v.0 == name).unwrap_or(self.vars.len());
        self.var_range.insert(i as u32, (lo, hi));
        self.var(name, w)
    }
    pub fn var_default(&self, v: u32) -> u128 { self.var_range.get(&v).map_or(0, |r| r.0) }
    pub fn table(&mut self, v: Vec<u128>) -> u32 {
        if let Some(&i) = self.tabmap.get(&v) { return i; }
        let i = self.tabs.len() as u32;
        self.tabs.push(Rc::new(v.clone()));
        self.tabmap.insert(v, i);
        i
    }
    pub fn ftable(&mut self, v: Vec<f64>) -> u32 {
        let key: Vec<u64> = v.iter().map(|x| x.to_bits()).collect();
        if let Some(&i) = self.ftabmap.get(&key) { return i; }
        let i = self.ftabs.len() as u32;
        self.ftabs.push(Rc::new(v));
        self.ftabmap.insert(key, i);
        i
    }

    /// Segments of a term, most significant first: (segment, width)
    fn segs(&self, t: T, out: &mut Vec<(Seg, u32)>) {
        let n = self.nodes[t as usize];
        let w = n.w as u32;
        match n.op {
            Const => out.push((Seg::C(n.k), w)),
            Concat => { self.segs(n.a, out); self.segs(n.b, out); }
            ZExt => { out.push((Seg::C(0), w - self.w(n.a))); self.segs(n.a, out); }
            Extract => out.push((Seg::E(n.a, n.k as u32), w)),
            _ => out.push((Seg::E(t, 0), w)),
        }
    }
    fn from_segs(&mut self, segs: &[(Seg, u32)]) -> T {
        // the upper bits of a sum followed by its (simplified) lower bits: the sum again
        for i in 0..segs.len() {
            let (x, lo, hw) = match segs[i] { (Seg::E(x, lo), w) if lo > 0 && w > 0 && self.n(x).op == Add => (x, lo, w), _ => continue };
            let (mut j, mut left) = (i + 1, lo);
            while j < segs.len() && segs[j].1 <= left { left -= segs[j].1; j += 1; }
            if left != 0 { continue; }
            let suffix: Vec<(Seg, u32)> = segs[i + 1..j].to_vec();
            if suffix.iter().any(|s| matches!(s.0, Seg::E(y, _) if y == x)) { continue; }
            let f = self.from_segs(&suffix);
            let e = self.extract(x, lo - 1, 0);
            if f != e && !self.low_of.get(&f).map_or(false, |v| v.contains(&x)) { continue; }
            let (w, xw) = (hw + lo, self.w(x));
            let mut v: Vec<(Seg, u32)> = segs[..i].to_vec();
            if w == xw { v.push((Seg::E(x, 0), w)); }
            else {
                // the bits above are constant: they must be what precedes
                let (r, up) = (self.rng(x), xw - w);
                if r.0 >> w != r.1 >> w { continue; }
                while v.len() > 1 {
                    match (v[v.len() - 2], v[v.len() - 1]) {
                        ((Seg::C(a), aw), (Seg::C(b), bw)) if aw + bw <= 128 => { v.pop(); *v.last_mut().unwrap() = (Seg::C(a << bw | b), aw + bw); }
                        _ => break,
                    }
                }
                match v.last_mut() {
                    Some((Seg::C(k), zw)) if *zw >= up && *k & mask(up) == r.0 >> w => { *k >>= up; *zw -= up; }
                    _ => continue,
                }
                v.push((Seg::E(x, 0), xw));
            }
            v.extend_from_slice(&segs[j..]);
            return self.from_segs(&v);
        }
        // merge adjacent
        let mut v: Vec<(Seg, u32)> = vec![];
        for &(s, w) in segs {
            if w == 0 { continue; }
            if let Some(last) = v.last_mut() {
                match (last.0, s) {
                    (Seg::C(a), Seg::C(b)) if last.1 + w <= 128 => { *last = (Seg::C((a << w) | b), last.1 + w); continue; }
                    (Seg::E(x, lo), Seg::E(y, lo2)) if x == y && lo2 + w == lo => { *last = (Seg::E(x, lo2), last.1 + w); continue; }
                    _ => {}
                }
            }
            v.push((s, w));
        }
        let total: u32 = v.iter().map(|x| x.1).sum();
        let mut start = 0;
        let mut zext = false;
        if v.len() > 1 { if let Seg::C(0) = v[0].0 { start = 1; zext = true; } }
        let mut acc: Option<T> = None;
        for i in (start..v.len()).rev() {
            let (s, w) = v[i];
            let t = match s {
                Seg::C(k) => self.c(k, w),
                Seg::E(x, lo) => if lo == 0 && w == self.w(x) { x } else if matches!(self.n(x).op, Add | Mul) { self.extract(x, lo + w - 1, lo) } else { self.m(Extract, w, x, NIL, NIL, lo as u128) },
            };
            acc = Some(match acc {
                None => t,
                Some(lo) => { let tw = w + self.w(lo); self.m(Concat, tw, t, lo, NIL, 0) }
            });
        }
        let r = acc.unwrap();
        if zext { self.m(ZExt, total, r, NIL, NIL, 0) } else { r }
    }
    fn cut_segs(segs: &[(Seg, u32)], hi: u32, lo: u32) -> Vec<(Seg, u32)> {
        // bits [hi..=lo]
        let total: u32 = segs.iter().map(|x| x.1).sum();
        let mut pos = total; // exclusive top
        let mut out = vec![];
        for &(s, w) in segs {
            let top = pos - 1;
            let bot = pos - w;
            pos = bot;
            if bot > hi || top < lo { continue; }
            let h = top.min(hi);
            let l = bot.max(lo);
            let nw = h - l + 1;
            let off = l - bot;
            out.push((match s {
                Seg::C(k) => Seg::C((k >> off) & mask(nw)),
                Seg::E(x, xlo) => Seg::E(x, xlo + off),
            }, nw));
        }
        out
    }

    pub fn extract(&mut self, t: T, hi: u32, lo: u32) -> T {
        let w = self.w(t);
        debug_assert!(hi < w && lo <= hi, "extract {} {} of w {}", hi, lo, w);
        if lo == 0 && hi == w - 1 { return t; }
        if let Some(&r) = self.extract_memo.get(&(t, hi, lo)) { return r; }
        let n = *self.n(t);
        let nw = hi - lo + 1;
        let r = match n.op {
            Const => self.c(n.k >> lo, nw),
            Concat | ZExt | Extract => {
                let mut s = vec![];
                self.segs(t, &mut s);
                let c = Self::cut_segs(&s, hi, lo);
                // re-simplify: a segment may itself be extractable deeper
                let mut parts = vec![];
                for (sg, sw) in c {
                    match sg {
                        Seg::E(x, xlo) => { let e = self.extract(x, xlo + sw - 1, xlo); self.segs(e, &mut parts); }
                        s => parts.push((s, sw)),
                    }
                }
                self.from_segs(&parts)
            }
            Ite => {
                let a = self.extract(n.b, hi, lo);
                let b = self.extract(n.c, hi, lo);
                self.ite(n.a, a, b)
            }
            And | Or | Xor => {
                let a = self.extract(n.a, hi, lo);
                let b = self.extract(n.b, hi, lo);
                match n.op { And => self.and(a, b), Or => self.or(a, b), _ => self.xor(a, b) }
            }
            Not => { let a = self.extract(n.a, hi, lo); self.not(a) }
            Add if lo == 0 => {
                let a = self.extract(n.a, hi, 0);
                let b = self.extract(n.b, hi, 0);
                self.add(a, b)
            }
            Neg if lo == 0 => { let a = self.extract(n.a, hi, 0); self.neg(a) }
            Mul if lo == 0 => {
                let a = self.extract(n.a, hi, 0);
                let b = self.extract(n.b, hi, 0);
                self.mul(a, b)
            }
            SExt => {
                let iw = self.w(n.a);
                if hi < iw { self.extract(n.a, hi, lo) } else if lo == 0 { self.sext(n.a, hi + 1) } else { self.m(Extract, nw, t, NIL, NIL, lo as u128) }
            }
            Table => {
                let tb: Vec<u128> = self.tabs[n.k as usize].iter().map(|x| (x >> lo) & mask(nw)).collect();
                let id = self.table(tb);
                self.tab(n.a, id, nw)
            }
            _ => {
                if self.rng(t).1 >> lo == 0 { self.c(0, nw) } else { self.m(Extract, nw, t, NIL, NIL, lo as u128) }
            }
        };
        self.extract_memo.insert((t, hi, lo), r);
        if lo == 0 && self.cval(r).is_none() {
            let mut from = self.low_of.get(&t).cloned().unwrap_or_default();
            from.push(t);
            let e = self.low_of.entry(r).or_default();
            for x in from { if e.len() < 32 && !e.contains(&x) { e.push(x); } }
        }
        r
    }
    pub fn concat(&mut self, a: T, b: T) -> T {
        let mut s = vec![];
        self.segs(a, &mut s);
        self.segs(b, &mut s);
        self.from_segs(&s)
    }
    pub fn zext(&mut self, a: T, w: u32) -> T {
        let iw = self.w(a);
        if iw == w { return a; }
        let mut s = vec![(Seg::C(0), w - iw)];
        self.segs(a, &mut s);
        self.from_segs(&s)
    }
    pub fn sext(&mut self, a: T, w: u32) -> T {
        let iw = self.w(a);
        if iw == w { return a; }
        if let Some(k) = self.cval(a) {
            let s = if k >> (iw - 1) & 1 == 1 { k | (mask(w) & !mask(iw)) } else { k };
            return self.c(s, w);
        }
        if self.rng(a).1 >> (iw - 1) == 0 { return self.zext(a, w); }
        if iw == 1 {
            let o = self.c(mask(w), w);
            let z = self.c(0, w);
            return self.ite(a, o, z);
        }
        self.m(SExt, w, a, NIL, NIL, 0)
    }
    pub fn trunc(&mut self, a: T, w: u32) -> T { self.extract(a, w - 1, 0) }
    pub fn resize(&mut self, a: T, w: u32) -> T {
        let iw = self.w(a);
        if iw == w { a } else if iw > w { self.trunc(a, w) } else { self.zext(a, w) }
    }

    /// number of low bits that can be non-zero
    fn bits(&self, t: T) -> u32 { 128 - self.rng(t).1.leading_zeros() }

    pub fn not(&mut self, a: T) -> T {
        let n = *self.n(a);
        match n.op {
            Const => self.c(!n.k, n.w as u32),
            Not => n.a,
            Ite if n.w == 1 && (self.cval(n.b).is_some() || self.cval(n.c).is_some()) => { let x = self.not(n.b); let y = self.not(n.c); self.ite(n.a, x, y) }
            _ => self.m(Not, n.w as u32, a, NIL, NIL, 0),
        }
    }
    fn bitop(&mut self, op: Op, a: T, b: T) -> Option<T> {
        // segment-wise with constants / known zero parts
        let w = self.w(a);
        if w == 1 { return None; }
        let mut sa = vec![];
        let mut sb = vec![];
        self.segs(a, &mut sa);
        self.segs(b, &mut sb);
        if sa.len() == 1 && sb.len() == 1 && !matches!(sa[0].0, Seg::C(_)) && !matches!(sb[0].0, Seg::C(_)) { return None; }
        // split constants into runs of equal bits
        let split = |s: Vec<(Seg, u32)>| -> Vec<(Seg, u32)> {
            let mut o = vec![];
            for (sg, w) in s {
                if let Seg::C(k) = sg {
                    let mut i = w;
                    while i > 0 {
                        let bit = (k >> (i - 1)) & 1;
                        let mut j = i;
                        while j > 0 && (k >> (j - 1)) & 1 == bit { j -= 1; }
                        let rw = i - j;
                        o.push((Seg::C(if bit == 1 { mask(rw) } else { 0 }), rw));
                        i = j;
                    }
                } else { o.push((sg, w)); }
            }
            o
        };
        let sa = split(sa);
        let sb = split(sb);
        if sa.len() + sb.len() > 40 { return None; }
        let mut cuts: Vec<u32> = vec![];
        let mut p = w;
        for s in &sa { p -= s.1; cuts.push(p); }
        let mut p = w;
        for s in &sb { p -= s.1; cuts.push(p); }
        cuts.sort_by(|a, b| b.cmp(a));
        cuts.dedup();
        let mut top = w;
        let mut out: Vec<(Seg, u32)> = vec![];
        let mut plan: Vec<(u32, u32, Seg, Seg)> = vec![];
        let mut unresolved = 0;
        for &c in &cuts {
            let x = Self::cut_segs(&sa, top - 1, c);
            let y = Self::cut_segs(&sb, top - 1, c);
            let (x, y) = (x[0].0, y[0].0);
            match (x, y) { (Seg::C(_), _) | (_, Seg::C(_)) => {}, _ => unresolved += 1 }
            plan.push((top, c, x, y));
            top = c;
        }
        if unresolved == plan.len() { return None; }
        for (top, lo, x, y) in plan {
            let sw = top - lo;
            let (kc, other) = match (x, y) {
                (Seg::C(k), o) | (o, Seg::C(k)) => (Some(k), o),
                _ => (None, x),
            };
            if let Some(k) = kc {
                let ones = k != 0;
                match (op, ones) {
                    (And, false) => out.push((Seg::C(0), sw)),
                    (And, true) => out.push((other, sw)),
                    (Or, true) => out.push((Seg::C(mask(sw)), sw)),
                    (Or, false) | (Xor, false) => out.push((other, sw)),
                    _ => match other {
                        Seg::C(j) => out.push((Seg::C(!j & mask(sw)), sw)),
                        Seg::E(z, zl) => { let e = self.extract(z, zl + sw - 1, zl); let ne = self.not(e); self.segs(ne, &mut out); }
                    },
                }
            } else {
                let (Seg::E(p, pl), Seg::E(q, ql)) = (x, y) else { unreachable!() };
                let p = self.extract(p, pl + sw - 1, pl);
                let q = self.extract(q, ql + sw - 1, ql);
                let r = if p == q && op != Xor { p } else if p == q { self.c(0, sw) } else {
                    match op { And => self.and(p, q), Or => self.or(p, q), _ => self.xor(p, q) }
                };
                self.segs(r, &mut out);
            }
        }
        Some(self.from_segs(&out))
    }
    pub fn and(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if a == b { return a; }
        let (a, b) = if self.cval(a).is_some() || (self.cval(b).is_none() && a > b) { (b, a) } else { (a, b) };
        if let Some(k) = self.cval(b) {
            if let Some(j) = self.cval(a) { return self.c(j & k, w); }
            if k == 0 { return b; }
            if k == mask(w) { return a; }
        }
        if w == 1 {
            if self.n(a).op == Not && self.n(a).a == b || self.n(b).op == Not && self.n(b).a == a { return self.ff(); }
            return self.m(And, 1, a, b, NIL, 0);
        }
        if let Some(r) = self.bitop(And, a, b) { return r; }
        // ite push for const masks
        if self.cval(b).is_some() && self.n(a).op == Ite {
            let n = *self.n(a);
            let x = self.and(n.b, b);
            let y = self.and(n.c, b);
            return self.ite(n.a, x, y);
        }
        self.m(And, w, a, b, NIL, 0)
    }
    pub fn or(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if a == b { return a; }
        let (a, b) = if self.cval(a).is_some() || (self.cval(b).is_none() && a > b) { (b, a) } else { (a, b) };
        if let Some(k) = self.cval(b) {
            if let Some(j) = self.cval(a) { return self.c(j | k, w); }
            if k == 0 { return a; }
            if k == mask(w) { return b; }
        }
        if w == 1 {
            if self.n(a).op == Not && self.n(a).a == b || self.n(b).op == Not && self.n(b).a == a { return self.tt(); }
            return self.m(Or, 1, a, b, NIL, 0);
        }
        if let Some(r) = self.bitop(Or, a, b) { return r; }
        self.m(Or, w, a, b, NIL, 0)
    }
    pub fn xor(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if a == b { return self.c(0, w); }
        let (a, b) = if self.cval(a).is_some() || (self.cval(b).is_none() && a > b) { (b, a) } else { (a, b) };
        if let Some(k) = self.cval(b) {
            if let Some(j) = self.cval(a) { return self.c(j ^ k, w); }
            if k == 0 { return a; }
            if k == mask(w) { return self.not(a); }
        }
        if let Some(r) = self.bitop(Xor, a, b) { return r; }
        self.m(Xor, w, a, b, NIL, 0)
    }
    pub fn neg(&mut self, a: T) -> T {
        let w = self.w(a);
        if let Some(k) = self.cval(a) { return self.c((!k).wrapping_add(1), w); }
        if w == 1 { return a; }
        if self.n(a).op == Neg { return self.n(a).a; }
        self.m(Neg, w, a, NIL, NIL, 0)
    }
    /// the summands of t (of width w, after zero extension) modulo 2^w; false if there are too many
    fn summands(&mut self, t: T, neg: bool, w: u32, out: &mut Vec<(T, bool)>, k: &mut u128) -> bool {
        if out.len() > 16 { return false; }
        let n = *self.n(t);
        let sg = |x: u128| if neg { x.wrapping_neg() } else { x };
        match n.op {
            Const => { *k = k.wrapping_add(sg(n.k)); true }
            Add => self.summands(n.a, neg, w, out, k) && self.summands(n.b, neg, w, out, k),
            Neg => self.summands(n.a, !neg, w, out, k),
            ZExt if self.n(n.a).op == Add => {
                let (m, iw) = (*self.n(n.a), self.w(n.a));
                let (p, q) = (self.rng(m.a), self.rng(m.b));
                if (p.0 + q.0) >> iw != (p.1 + q.1) >> iw { out.push((t, neg)); return true; }
                *k = k.wrapping_sub(sg((p.0 + q.0) >> iw << iw));
                let (x, y) = (self.zext(m.a, w), self.zext(m.b, w));
                self.summands(x, neg, w, out, k) && self.summands(y, neg, w, out, k)
            }
            _ => { out.push((t, neg)); true }
        }
    }
    pub fn add(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (a, b) = if self.cval(a).is_some() || (self.cval(b).is_none() && a > b) { (b, a) } else { (a, b) };
        if let Some(k) = self.cval(b) {
            if let Some(j) = self.cval(a) { return self.c(j.wrapping_add(k), w); }
            if k == 0 { return a; }
            let n = *self.n(a);
            if n.op == Add { if let Some(j) = self.cval(n.b) { let s = self.c(j.wrapping_add(k), w); return self.add(n.a, s); } }
            if n.op == Ite && self.cval(n.b).is_some() && self.cval(n.c).is_some() {
                let x = self.add(n.b, b); let y = self.add(n.c, b); return self.ite(n.a, x, y);
            }
            if n.op == Concat {
                // constant top part, and nothing added below it
                let mut v = vec![];
                self.segs(a, &mut v);
                if let Seg::C(c) = v[0].0 {
                    let low = w - v[0].1;
                    if k.trailing_zeros() >= low {
                        v[0].0 = Seg::C(c.wrapping_add(k >> low) & mask(v[0].1));
                        return self.from_segs(&v);
                    }
                }
            }
            if n.op == ZExt {
                let m = self.n(n.a);
                // zext(x+j)+k where no wrap inside
                if m.op == Add { if let (Some(j), x) = (self.cval(m.b), m.a) {
                    let iw = self.w(n.a);
                    if self.rng(x).1 + j <= mask(iw) {
                        let zx = self.zext(x, w);
                        let s = self.c(j.wrapping_add(k), w);
                        return self.add(zx, s);
                    }
                } }
            }
        }
        if self.n(b).op == Neg && self.n(b).a == a || self.n(a).op == Neg && self.n(a).a == b { return self.c(0, w); }
        if w >= 16 && w < 128 && self.cval(b).is_none() {
            // cancel what occurs with both signs in a short sum
            let (mut l, mut k) = (vec![], 0u128);
            if self.summands(a, false, w, &mut l, &mut k) && self.summands(b, false, w, &mut l, &mut k) && l.iter().any(|x| x.1) {
                let before = l.len();
                let mut i = 0;
                while i < l.len() {
                    let (t, s) = l[i];
                    match l.iter().position(|y| y.0 == t && y.1 != s) {
                        Some(j) => { let (p, q) = (i.max(j), i.min(j)); l.swap_remove(p); l.swap_remove(q); i = 0; }
                        None => i += 1,
                    }
                }
                if l.len() < before {
                    l.sort();
                    let mut acc: Option<T> = None;
                    for (t, s) in l { let t = if s { self.neg(t) } else { t }; acc = Some(match acc { None => t, Some(x) => self.add(x, t) }); }
                    let kt = self.c(k & mask(w), w);
                    return match acc { None => kt, Some(x) => self.add(x, kt) };
                }
            }
        }
        // pull constants out
        let (na, nb) = (*self.n(a), *self.n(b));
        if nb.op == Add && self.cval(nb.b).is_some() { let s = self.add(a, nb.a); return self.add(s, nb.b); }
        if na.op == Add && self.cval(na.b).is_some() { let s = self.add(na.a, b); return self.add(s, na.b); }
        // (x + -y) + y  and nested cancellation
        if nb.op == Neg {
            if na.op == Add { if na.a == nb.a { return na.b; } if na.b == nb.a { return na.a; } }
        }
        if na.op == Neg {
            if nb.op == Add { if nb.a == na.a { return nb.b; } if nb.b == na.a { return nb.a; } }
        }
        // disjoint bits -> or
        if w > 1 {
            let (ra, rb) = (self.rng(a).1, self.rng(b).1);
            let tz = |s: &Self, t: T| -> u32 { let mut v = vec![]; s.segs(t, &mut v); match v.last() { Some((Seg::C(k), ww)) => if *k == 0 { *ww } else { k.trailing_zeros() }, _ => 0 } };
            if rb != 0 && (128 - rb.leading_zeros()) <= tz(self, a) || ra != 0 && (128 - ra.leading_zeros()) <= tz(self, b) { return self.or(a, b); }
            // narrow
            if w < 128 && ra + rb <= mask(w) {
                let nw = (128 - (ra + rb).leading_zeros()).max(1);
                if nw < w {
                    let x = self.trunc(a, nw);
                    let y = self.trunc(b, nw);
                    let s = self.add(x, y);
                    return self.zext(s, w);
                }
            }
        }
        self.m(Add, w, a, b, NIL, 0)
    }
    pub fn sub(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if a == b { return self.c(0, w); }
        if let Some(k) = self.cval(b) { let nk = self.c((!k).wrapping_add(1), w); return self.add(a, nk); }
        // ite(c, k1, k2) subtrahend -> add ite(c,-k1,-k2)
        let nb = *self.n(b);
        if nb.op == Ite && self.cval(nb.b).is_some() && self.cval(nb.c).is_some() {
            let x = self.neg(nb.b); let y = self.neg(nb.c);
            let s = self.ite(nb.a, x, y);
            return self.add(a, s);
        }
        let nb = self.neg(b);
        self.add(a, nb)
    }
    pub fn mul(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        let (a, b) = if self.cval(a).is_some() || (self.cval(b).is_none() && a > b) { (b, a) } else { (a, b) };
        if let Some(k) = self.cval(b) {
            if let Some(j) = self.cval(a) { return self.c(j.wrapping_mul(k), w); }
            if k == 0 { return b; }
            if k == 1 { return a; }
            if k.is_power_of_two() { let s = self.c(k.trailing_zeros() as u128, w); return self.shl(a, s); }
            let n = *self.n(a);
            if n.op == Ite && self.cval(n.b).is_some() && self.cval(n.c).is_some() {
                let x = self.mul(n.b, b); let y = self.mul(n.c, b); return self.ite(n.a, x, y);
            }
        }
        let (ra, rb) = (self.rng(a).1, self.rng(b).1);
        if let Some(p) = ra.checked_mul(rb) {
            if p <= mask(w) {
                let nw = (128 - p.leading_zeros()).max(1);
                if nw < w {
                    let x = self.trunc(a, nw);
                    let y = self.trunc(b, nw);
                    let s = self.mul(x, y);
                    return self.zext(s, w);
                }
            }
        }
        self.m(Mul, w, a, b, NIL, 0)
    }
    pub fn udiv(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let (Some(j), Some(k)) = (self.cval(a), self.cval(b)) { if k != 0 { return self.c(j / k, w); } }
        if let Some(k) = self.cval(b) {
            if k.is_power_of_two() { let s = self.c(k.trailing_zeros() as u128, w); return self.lshr(a, s); }
        }
        let nw = self.bits(a).max(self.bits(b)).max(1);
        if nw < w && self.rng(b).0 > 0 {
            let x = self.trunc(a, nw);
            let y = self.trunc(b, nw);
            let s = self.udiv(x, y);
            return self.zext(s, w);
        }
        self.m(UDiv, w, a, b, NIL, 0)
    }
    pub fn urem(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let (Some(j), Some(k)) = (self.cval(a), self.cval(b)) { if k != 0 { return self.c(j % k, w); } }
        if let Some(k) = self.cval(b) {
            if k.is_power_of_two() { let s = self.c(k - 1, w); return self.and(a, s); }
            if self.rng(a).1 < k { return a; }
        }
        let nw = self.bits(a).max(self.bits(b)).max(1);
        if nw < w && self.rng(b).0 > 0 {
            let x = self.trunc(a, nw);
            let y = self.trunc(b, nw);
            let s = self.urem(x, y);
            return self.zext(s, w);
        }
        self.m(URem, w, a, b, NIL, 0)
    }
    pub fn sdiv(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if self.rng(a).1 >> (w - 1) == 0 && self.rng(b).1 >> (w - 1) == 0 { return self.udiv(a, b); }
        if let (Some(j), Some(k)) = (self.cval(a), self.cval(b)) {
            if k != 0 { return self.c(sx(j, w).wrapping_div(sx(k, w)) as u128, w); }
        }
        self.m(SDiv, w, a, b, NIL, 0)
    }
    pub fn srem(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if self.rng(a).1 >> (w - 1) == 0 && self.rng(b).1 >> (w - 1) == 0 { return self.urem(a, b); }
        if let (Some(j), Some(k)) = (self.cval(a), self.cval(b)) {
            if k != 0 { return self.c(sx(j, w).wrapping_rem(sx(k, w)) as u128, w); }
        }
        self.m(SRem, w, a, b, NIL, 0)
    }
    pub fn shl(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let Some(k) = self.cval(b) {
            if k == 0 { return a; }
            if k >= w as u128 { return self.c(0, w); }
            let k = k as u32;
            if let Some(j) = self.cval(a) { return self.c(j << k, w); }
            let x = self.extract(a, w - 1 - k, 0);
            let z = self.c(0, k);
            return self.concat(x, z);
        }
        if self.cval(a) == Some(0) { return a; }
        // narrow the shift amount representation is left to the solver
        self.m(Shl, w, a, b, NIL, 0)
    }
    pub fn lshr(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let Some(k) = self.cval(b) {
            if k == 0 { return a; }
            if k >= w as u128 { return self.c(0, w); }
            let k = k as u32;
            let x = self.extract(a, w - 1, k);
            return self.zext(x, w);
        }
        if self.cval(a) == Some(0) { return a; }
        self.m(LShr, w, a, b, NIL, 0)
    }
    pub fn ashr(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if self.rng(a).1 >> (w - 1) == 0 { return self.lshr(a, b); }
        if let Some(k) = self.cval(b) {
            let k = (k.min(w as u128 - 1)) as u32;
            if k == 0 { return a; }
            let x = self.extract(a, w - 1, k);
            return self.sext(x, w);
        }
        self.m(AShr, w, a, b, NIL, 0)
    }
    pub fn eq(&mut self, a: T, b: T) -> T {
        if a == b { return self.tt(); }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "eq widths");
        let (a, b) = if self.cval(a).is_some() || (self.cval(b).is_none() && a > b) { (b, a) } else { (a, b) };
        let (ra, rb) = (self.rng(a), self.rng(b));
        if ra.1 < rb.0 || rb.1 < ra.0 { return self.ff(); }
        if let Some(k) = self.cval(b) {
            if let Some(j) = self.cval(a) { return self.c((j == k) as u128, 1); }
            if w == 1 { return if k == 1 { a } else { self.not(a) }; }
            let n = *self.n(a);
            match n.op {
                ZExt => {
                    let iw = self.w(n.a);
                    let kk = self.c(k, iw);
                    return self.eq(n.a, kk);
                }
                Concat => {
                    let lw = self.w(n.b);
                    let h = self.c(k >> lw, w - lw);
                    let l = self.c(k, lw);
                    let x = self.eq(n.a, h);
                    let y = self.eq(n.b, l);
                    return self.and(x, y);
                }
                Add if self.cval(n.b).is_some() => { let j = self.cval(n.b).unwrap(); let kk = self.c(k.wrapping_sub(j), w); return self.eq(n.a, kk); }
                Add if k == 0 && self.rng(n.a).1.checked_add(self.rng(n.b).1).map_or(false, |s| s <= mask(w)) => {
                    let z = self.c(0, w);
                    let x = self.eq(n.a, z);
                    let y = self.eq(n.b, z);
                    return self.and(x, y);
                }
                Or if k == 0 => { let x = self.eq(n.a, b); let y = self.eq(n.b, b); return self.and(x, y); }
                UDiv => if let Some(j) = self.cval(n.b) { if j > 0 {
                    // x / j == k  <=>  k*j <= x < k*j + j
                    let lo = match k.checked_mul(j) { Some(l) if l <= mask(w) => l, _ => return self.ff() };
                    let hi = lo + j - 1;
                    let lt = self.c(lo, w);
                    let ge = self.ule(lt, n.a);
                    if hi >= mask(w) { return ge; }
                    let ht = self.c(hi, w);
                    let le = self.ule(n.a, ht);
                    return self.and(ge, le);
                } },
                Not => { let kk = self.c(!k, w); return self.eq(n.a, kk); }
                Xor => if let Some(j) = self.cval(n.b) { let kk = self.c(k ^ j, w); return self.eq(n.a, kk); },
                Ite => {
                    // push when at least one branch decides
                    if let Some(&r) = self.eq_memo.get(&(a, b)) { if r != NIL { return r; } } else {
                        let x = self.eq(n.b, b);
                        let y = self.eq(n.c, b);
                        if self.cval(x).is_some() || self.cval(y).is_some() { let r = self.ite(n.a, x, y); self.eq_memo.insert((a, b), r); return r; }
                        self.eq_memo.insert((a, b), NIL);
                    }
                }
                SExt => {
                    let iw = self.w(n.a);
                    let kt = self.c(k, iw);
                    let back = self.sext(kt, w);
                    if self.cval(back) != Some(k) { return self.ff(); }
                    return self.eq(n.a, kt);
                }
                Clz => {
                    // clz(x) == k  <=> top k bits zero and next bit one
                    let iw = self.w(n.a);
                    if k > iw as u128 { return self.ff(); }
                    let k = k as u32;
                    let x = n.a;
                    if k == iw { let z = self.c(0, iw); return self.eq(x, z); }
                    let e = self.extract(x, iw - 1, iw - 1 - k);
                    let o = self.c(1, k + 1);
                    return self.eq(e, o);
                }
                _ => {}
            }
        }
        // both zext of the same inner width
        let (na, nb) = (*self.n(a), *self.n(b));
        if na.op == ZExt && nb.op == ZExt && w > 1 {
            let nw = self.w(na.a).max(self.w(nb.a));
            let x = self.trunc(a, nw);
            let y = self.trunc(b, nw);
            return self.eq(x, y);
        }
        if matches!(na.op, Concat | ZExt) || matches!(nb.op, Concat | ZExt) {
            // split on common cut points
            let mut sa = vec![];
            let mut sb = vec![];
            self.segs(a, &mut sa);
            self.segs(b, &mut sb);
            let mut ca = vec![];
            let mut p = w;
            for s in &sa { p -= s.1; ca.push(p); }
            let mut p = w;
            for s in &sb { p -= s.1; if !ca.contains(&p) { ca.push(p); } }
            ca.sort_by(|x, y| y.cmp(x));
            if ca.len() > 1 && ca.len() <= 24 {
                let mut top = w;
                let mut acc = self.tt();
                for c in ca {
                    let x = self.extract(a, top - 1, c);
                    let y = self.extract(b, top - 1, c);
                    top = c;
                    let e = self.eq(x, y);
                    acc = self.and(acc, e);
                    if self.cval(acc) == Some(0) { return acc; }
                }
                return acc;
            }
        }
        if na.op == Add && nb.op == Add {
            if na.a == nb.a { return self.eq(na.b, nb.b); }
            if na.b == nb.b { return self.eq(na.a, nb.a); }
        }
        if w == 1 { let x = self.xor(a, b); return self.not(x); }
        self.m(Eq, 1, a, b, NIL, 0)
    }
    pub fn ne(&mut self, a: T, b: T) -> T { let e = self.eq(a, b); self.not(e) }
    pub fn ult(&mut self, a: T, b: T) -> T {
        if a == b { return self.ff(); }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "ult widths");
        let (ra, rb) = (self.rng(a), self.rng(b));
        if ra.1 < rb.0 { return self.tt(); }
        if ra.0 >= rb.1 { return self.ff(); }
        if self.cval(b) == Some(1) { let z = self.c(0, w); return self.eq(a, z); }
        if self.cval(a) == Some(0) { return self.ne(b, a); }
        if w == 1 { let na = self.not(a); return self.and(na, b); }
        let nw = self.bits(a).max(self.bits(b)).max(1);
        if nw < w {
            let x = self.trunc(a, nw);
            let y = self.trunc(b, nw);
            return self.ult(x, y);
        }
        let (na, nb) = (*self.n(a), *self.n(b));
        if let Some(k) = self.cval(b) {
            if let (Some(j), Add) = (self.cval(na.b_or_nil()), na.op) {
                // x + j < k without wrap
                if self.rng(na.a).1.checked_add(j).map_or(false, |s| s <= mask(w)) && k >= j {
                    let kk = self.c(k - j, w);
                    return self.ult(na.a, kk);
                }
            }
            if na.op == Ite && self.cval(na.b).is_some() && self.cval(na.c).is_some() {
                let x = self.ult(na.b, b); let y = self.ult(na.c, b); return self.ite(na.a, x, y);
            }
            // concat with low part irrelevant
            if na.op == Concat {
                let lw = self.w(na.b);
                if k & mask(lw) == 0 { let h = self.c(k >> lw, w - lw); return self.ult(na.a, h); }
            }
            if k.is_power_of_two() {
                let s = k.trailing_zeros();
                let e = self.extract(a, w - 1, s);
                let z = self.c(0, w - s);
                return self.eq(e, z);
            }
        }
        if let Some(j) = self.cval(a) {
            if nb.op == Ite && self.cval(nb.b).is_some() && self.cval(nb.c).is_some() {
                let x = self.ult(a, nb.b); let y = self.ult(a, nb.c); return self.ite(nb.a, x, y);
            }
            if nb.op == Concat {
                let lw = self.w(nb.b);
                if j & mask(lw) == mask(lw) { let h = self.c(j >> lw, w - lw); return self.ult(h, nb.a); }
            }
            if (j + 1).is_power_of_two() && j != mask(w) {
                let s = (j + 1).trailing_zeros();
                let e = self.extract(b, w - 1, s);
                let z = self.c(0, w - s);
                return self.ne(e, z);
            }
        }
        // common low parts: concat(x, l) < concat(y, l)
        if na.op == Concat && nb.op == Concat && na.b == nb.b { return self.ult(na.a, nb.a); }
        if na.op == Concat && nb.op == Concat && na.a == nb.a && self.w(na.b) == self.w(nb.b) { return self.ult(na.b, nb.b); }
        self.m(Ult, 1, a, b, NIL, 0)
    }
    pub fn ule(&mut self, a: T, b: T) -> T { let x = self.ult(b, a); self.not(x) }
    pub fn slt(&mut self, a: T, b: T) -> T {
        if a == b { return self.ff(); }
        let w = self.w(a);
        if let (Some(j), Some(k)) = (self.cval(a), self.cval(b)) { return self.c((sx(j, w) < sx(k, w)) as u128, 1); }
        let pa = self.rng(a).1 >> (w - 1) == 0;
        let pb = self.rng(b).1 >> (w - 1) == 0;
        if pa && pb { return self.ult(a, b); }
        let (na, nb) = (self.rng(a).0 >> (w - 1) == 1, self.rng(b).0 >> (w - 1) == 1);
        if pa && nb { return self.ff(); }
        if na && pb { return self.tt(); }
        if na && nb { return self.ult(a, b); }
        if self.cval(b) == Some(0) { let e = self.extract(a, w - 1, w - 1); return e; }
        if self.cval(a) == Some(mask(w)) { let e = self.extract(b, w - 1, w - 1); return self.not(e); }
        self.m(Slt, 1, a, b, NIL, 0)
    }
    pub fn ite(&mut self, c: T, a: T, b: T) -> T {
        if let Some(k) = self.cval(c) { return if k == 1 { a } else { b }; }
        if a == b { return a; }
        if self.is_fp(a) { return self.fite(c, a, b); }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "ite widths");
        let nc = *self.n(c);
        if nc.op == Not { return self.ite(nc.a, b, a); }
        if w == 1 {
            match (self.cval(a), self.cval(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), _) => return self.or(c, b),
                (Some(0), _) => { let n = self.not(c); return self.and(n, b); }
                (_, Some(1)) => { let n = self.not(c); return self.or(n, a); }
                (_, Some(0)) => return self.and(c, a),
                _ => {}
            }
        }
        let (na, nb) = (*self.n(a), *self.n(b));
        if na.op == Ite && na.a == c { return self.ite(c, na.b, b); }
        if nb.op == Ite && nb.a == c { return self.ite(c, a, nb.c); }
        if na.op == Ite && na.c == b { let cc = self.and(c, na.a); return self.ite(cc, na.b, b); }
        if na.op == Ite && na.b == b { let nn = self.not(na.a); let cc = self.and(c, nn); return self.ite(cc, na.c, b); }
        if nb.op == Ite && nb.b == a { let cc = self.or(c, nb.a); return self.ite(cc, a, nb.c); }
        // common high zero bits
        if w > 1 {
            let nw = self.bits(a).max(self.bits(b)).max(1);
            if nw < w {
                let x = self.trunc(a, nw);
                let y = self.trunc(b, nw);
                let r = self.ite(c, x, y);
                return self.zext(r, w);
            }
            if w > 8 && (na.op == Concat || nb.op == Concat) && w <= 64 {
                // share common segments
                let mut sa = vec![];
                let mut sb = vec![];
                self.segs(a, &mut sa);
                self.segs(b, &mut sb);
                let mut cuts = vec![];
                let mut p = w;
                for s in &sa { p -= s.1; cuts.push(p); }
                let mut p = w;
                for s in &sb { p -= s.1; if !cuts.contains(&p) { cuts.push(p); } }
                cuts.sort_by(|x, y| y.cmp(x));
                if cuts.len() > 1 && cuts.len() <= 24 {
                    let mut parts: Vec<(T, T)> = vec![];
                    let mut top = w;
                    let mut same = 0;
                    for cpt in cuts {
                        let x = self.extract(a, top - 1, cpt);
                        let y = self.extract(b, top - 1, cpt);
                        if x == y { same += 1; }
                        parts.push((x, y));
                        top = cpt;
                    }
                    if same > 0 {
                        // merge runs of differing parts
                        let mut out: Vec<(Seg, u32)> = vec![];
                        let mut i = 0;
                        while i < parts.len() {
                            if parts[i].0 == parts[i].1 { self.segs(parts[i].0, &mut out); i += 1; continue; }
                            let (mut x, mut y) = parts[i];
                            i += 1;
                            while i < parts.len() && parts[i].0 != parts[i].1 {
                                x = self.concat(x, parts[i].0);
                                y = self.concat(y, parts[i].1);
                                i += 1;
                            }
                            let r = self.m_ite(c, x, y);
                            self.segs(r, &mut out);
                        }
                        return self.from_segs(&out);
                    }
                }
            }
        }
        self.m(Ite, w, c, a, b, 0)
    }
    fn m_ite(&mut self, c: T, a: T, b: T) -> T {
        let w = self.w(a);
        if w == 1 { return self.ite(c, a, b); }
        self.m(Ite, w, c, a, b, 0)
    }
    pub fn clz(&mut self, a: T) -> T {
        let w = self.w(a);
        if let Some(k) = self.cval(a) { return self.c((k.leading_zeros() - (128 - w)) as u128, w); }
        self.m(Clz, w, a, NIL, NIL, 0)
    }
    pub fn ctz(&mut self, a: T) -> T {
        let w = self.w(a);
        if let Some(k) = self.cval(a) { return self.c(if k == 0 { w as u128 } else { k.trailing_zeros() as u128 }, w); }
        self.m(Ctz, w, a, NIL, NIL, 0)
    }
    pub fn pop(&mut self, a: T) -> T {
        let w = self.w(a);
        if let Some(k) = self.cval(a) { return self.c(k.count_ones() as u128, w); }
        self.m(Pop, w, a, NIL, NIL, 0)
    }
    /// t as a sum of coefficient * atom + constant, modulo 2^w (atoms are zero-extended to w)
    pub fn linear(&mut self, t: T, w: u32, memo: &mut HashMap<T, Rc<Lin>>) -> Rc<Lin> {
        if let Some(r) = memo.get(&t) { return r.clone(); }
        let n = *self.n(t);
        let tw = self.w(t);
        let one = |t: T| { let mut m = BTreeMap::new(); m.insert(t, 1u128); Rc::new((m, 0u128)) };
        let full = tw == w;
        let r: Rc<Lin> = match n.op {
            Const => Rc::new((BTreeMap::new(), n.k & mask(w))),
            // at full width, or where nothing can wrap
            Add if full || self.rng(n.a).1 + self.rng(n.b).1 <= mask(tw) => {
                let (a, b) = (self.linear(n.a, w, memo), self.linear(n.b, w, memo));
                Rc::new(lin_add(&a, &b, 1, w))
            }
            Neg if full => { let a = self.linear(n.a, w, memo); Rc::new(lin_add(&(BTreeMap::new(), 0), &a, mask(w), w)) }
            ZExt => self.linear(n.a, w, memo),
            Ite => {
                let (a, b) = (self.linear(n.b, w, memo), self.linear(n.c, w, memo));
                let d = lin_add(&a, &b, mask(w), w);
                if d.0.is_empty() {
                    let mut r = (*b).clone();
                    if d.1 != 0 { let e = r.0.entry(n.a).or_insert(0); *e = e.wrapping_add(d.1) & mask(w); if *e == 0 { r.0.remove(&n.a); } }
                    Rc::new(r)
                } else if a.0.len() + b.0.len() > 4 && d.0.len() <= 4 {
                    // ite(c, B + d, B) = B + ite(c, d, 0)
                    let mut s = self.c(d.1, w);
                    for (t, k) in d.0.iter() { let kc = self.c(*k, w); let x = self.resize(*t, w); let p = self.mul(x, kc); s = self.add(s, p); }
                    let z = self.c(0, w);
                    let it = self.ite(n.a, s, z);
                    let mut r = (*b).clone();
                    let e = r.0.entry(it).or_insert(0);
                    *e = e.wrapping_add(1) & mask(w);
                    if *e == 0 { r.0.remove(&it); }
                    Rc::new(r)
                } else { one(t) }
            }
            _ => one(t),
        };
        memo.insert(t, r.clone());
        r
    }
    pub fn lin_sub(&self, a: &Lin, b: &Lin, w: u32) -> Lin { lin_add(a, b, mask(w), w) }
    pub fn tab(&mut self, idx: T, id: u32, w: u32) -> T {
        if let Some(k) = self.cval(idx) { let v = self.tabs[id as usize][k as usize]; return self.c(v, w); }
        self.m(Table, w, idx, NIL, NIL, id as u128)
    }

    // ---- doubles -------------------------------------------------------
    pub fn fadd(&mut self, a: T, b: T) -> T {
        if let (Some(x), Some(y)) = (self.fval(a), self.fval(b)) { return self.fc(x + y); }
        // -0.0 + x = x ; 0.0 + x = x if x cannot be -0.0
        for (x, y) in [(a, b), (b, a)] {
            if let Some(v) = self.fval(x) {
                if v == 0.0 && (v.is_sign_negative() || self.fint[y as usize].0 > 0.0) { return y; }
            }
        }
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        self.m(FAdd, 0, a, b, NIL, 0)
    }
    pub fn fsub(&mut self, a: T, b: T) -> T {
        if let (Some(x), Some(y)) = (self.fval(a), self.fval(b)) { return self.fc(x - y); }
        if a == b && self.finite(a) { return self.fc(0.0); }
        if self.fval(b).map_or(false, |v| v == 0.0 && !v.is_sign_negative()) { return a; }
        self.m(FSub, 0, a, b, NIL, 0)
    }
    pub fn finite(&self, a: T) -> bool { let i = self.fint[a as usize]; i.0.is_finite() && i.1.is_finite() }
    pub fn fmul(&mut self, a: T, b: T) -> T {
        if let (Some(x), Some(y)) = (self.fval(a), self.fval(b)) { return self.fc(x * y); }
        let (a, b) = if self.fval(a).is_some() || (self.fval(b).is_none() && a > b) { (b, a) } else { (a, b) };
        if self.fval(b) == Some(1.0) { return a; }
        if self.fval(b) == Some(-1.0) { return self.fneg(a); }
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        self.m(FMul, 0, a, b, NIL, 0)
    }
    pub fn fdiv(&mut self, a: T, b: T) -> T {
        if let (Some(x), Some(y)) = (self.fval(a), self.fval(b)) { return self.fc(x / y); }
        if self.fval(b) == Some(1.0) { return a; }
        if self.fval(a) == Some(1.0) && self.n(b).op == FFromU {
            let s = *self.n(self.n(b).a);
            if s.op == Shl && self.cval(s.a) == Some(1) && self.rng(s.b).1 < 64 && s.w as u32 == 64 {
                let idx = self.trunc(s.b, 6);
                let t = self.pow2tab;
                return self.ftab(idx, t);
            }
        }
        // a constant over a table of constants
        if let (Some(x), FTab) = (self.fval(a), self.n(b).op) {
            let n = *self.n(b);
            let hi = (self.rng(n.a).1 as usize).min(self.ftabs[n.k as usize].len() - 1);
            let tb: Vec<f64> = self.ftabs[n.k as usize][..=hi].iter().map(|v| x / v).collect();
            if tb.iter().all(|v| v.is_finite()) { let id = self.ftable(tb); return self.ftab(n.a, id); }
        }
        self.m(FDiv, 0, a, b, NIL, 0)
    }
    pub fn flo(&mut self, a: T, lo: f64) -> T {
        if self.fval(a).is_some() { return a; }
        self.m(FLo, 0, a, NIL, NIL, lo.to_bits() as u128)
    }
    pub fn fneg(&mut self, a: T) -> T {
        if let Some(x) = self.fval(a) { return self.fc(-x); }
        if self.n(a).op == FNeg { return self.n(a).a; }
        self.m(FNeg, 0, a, NIL, NIL, 0)
    }
    pub fn fabs(&mut self, a: T) -> T {
        if let Some(x) = self.fval(a) { return self.fc(x.abs()); }
        if self.fint[a as usize].0 > 0.0 { return a; }
        self.m(FAbs, 0, a, NIL, NIL, 0)
    }
    pub fn fln(&mut self, a: T) -> T {
        if let Some(x) = self.fval(a) { return self.fc(x.ln()); }
        self.m(FLn, 0, a, NIL, NIL, 0)
    }
    pub fn ffromu(&mut self, a: T) -> T {
        if let Some(k) = self.cval(a) { return self.fc(k as f64); }
        let n = *self.n(a);
        if n.op == ZExt { return self.ffromu(n.a); }
        self.m(FFromU, 0, a, NIL, NIL, 0)
    }
    pub fn ffroms(&mut self, a: T) -> T {
        let w = self.w(a);
        if let Some(k) = self.cval(a) { return self.fc(sx(k, w) as f64); }
        if self.rng(a).1 >> (w - 1) == 0 { return self.ffromu(a); }
        self.m(FFromS, 0, a, NIL, NIL, 0)
    }
    pub fn ftab(&mut self, idx: T, id: u32) -> T {
        if let Some(k) = self.cval(idx) { let v = self.ftabs[id as usize][k as usize]; return self.fc(v); }
        // canonical: strip zero extension
        let n = *self.n(idx);
        if n.op == ZExt { return self.ftab(n.a, id); }
        // the power-of-two table in any length
        let hi = self.rng(idx).1 as usize;
        let t = self.ftabs[id as usize].clone();
        let p = self.ftabs[self.pow2tab as usize].clone();
        if id != self.pow2tab && hi < 64 && hi < t.len() && (0..=hi).all(|i| t[i].to_bits() == p[i].to_bits()) {
            let pt = self.pow2tab;
            return self.ftab(idx, pt);
        }
        self.m(FTab, 0, idx, NIL, NIL, id as u128)
    }
    pub fn fite(&mut self, c: T, a: T, b: T) -> T {
        if let Some(k) = self.cval(c) { return if k == 1 { a } else { b }; }
        if a == b { return a; }
        if self.n(c).op == Not { let cc = self.n(c).a; return self.fite(cc, b, a); }
        self.m(FIte, 0, c, a, b, 0)
    }
    pub fn ffrombits(&mut self, a: T) -> T {
        if let Some(k) = self.cval(a) { return self.fc(f64::from_bits(k as u64)); }
        if self.n(a).op == FBits { return self.n(a).a; }
        self.m(FFromBits, 0, a, NIL, NIL, 0)
    }
    pub fn fbits(&mut self, a: T) -> T {
        if let Some(x) = self.fval(a) { return self.c(x.to_bits() as u128, 64); }
        if self.n(a).op == FFromBits { return self.n(a).a; }
        self.m(FBits, 64, a, NIL, NIL, 0)
    }
    /// op in FEq, FLt, FLe; ordered comparison. Symbolic doubles are never NaN.
    pub fn fcmp(&mut self, op: Op, a: T, b: T) -> T {
        if let (Some(x), Some(y)) = (self.fval(a), self.fval(b)) {
            let r = match op { FEq => x == y, FLt => x < y, _ => x <= y };
            return self.c(r as u128, 1);
        }
        if self.fval(a).map_or(false, |x| x.is_nan()) || self.fval(b).map_or(false, |x| x.is_nan()) { return self.ff(); }
        if a == b { return self.c((op != FLt) as u128, 1); }
        let (x, y) = (self.fint[a as usize], self.fint[b as usize]);
        match op {
            FEq => if x.1 < y.0 || y.1 < x.0 { return self.ff(); },
            FLt => { if x.1 < y.0 { return self.tt(); } if x.0 >= y.1 { return self.ff(); } }
            _ => { if x.1 <= y.0 { return self.tt(); } if x.0 > y.1 { return self.ff(); } }
        }
        // integer comparisons
        if self.n(a).op == FFromU { if let Some(k) = self.fval(b) {
            let ia = self.n(a).a;
            let w = self.w(ia);
            if k <= 9007199254740992.0 && k >= 0.0 && k < 2f64.powi(w as i32) {
                let fl = k.floor();
                return match op {
                    FEq => if fl == k { let kk = self.c(k as u128, w); self.eq(ia, kk) } else { self.ff() },
                    FLe => { let kk = self.c(fl as u128, w); self.ule(ia, kk) }
                    _ => { let ce = k.ceil(); if ce >= 2f64.powi(w as i32) { self.tt() } else { let kk = self.c(ce as u128, w); self.ult(ia, kk) } }
                };
            }
        } }
        if self.n(b).op == FFromU { if let Some(k) = self.fval(a) {
            let ib = self.n(b).a;
            let w = self.w(ib);
            if k <= 9007199254740992.0 && k >= 0.0 && k < 2f64.powi(w as i32) {
                return match op {
                    FEq => self.fcmp(FEq, b, a),
                    FLe => { let x = self.fcmp(FLt, b, a); self.not(x) }
                    _ => { let x = self.fcmp(FLe, b, a); self.not(x) }
                };
            }
        } }
        // exact zero tests of differences are left to the solver
        self.m(op, 1, a, b, NIL, 0)
    }

    // ---- queries ----------------------------------------------------------
    pub fn varset(&mut self, t: T) -> Rc<Vec<u32>> {
        if let Some(v) = self.varsets.get(&t) { return v.clone(); }
        // iterative post-order
        let mut stack = vec![(t, false)];
        while let Some((x, done)) = stack.pop() {
            if self.varsets.contains_key(&x) { continue; }
            let n = *self.n(x);
            if !done {
                stack.push((x, true));
                for y in [n.a, n.b, n.c] { if y != NIL && !self.varsets.contains_key(&y) { stack.push((y, false)); } }
            } else {
                let mut v: Vec<u32> = vec![];
                if n.op == Var { v.push(n.k as u32); }
                let mut kids = 0;
                let mut single: Option<Rc<Vec<u32>>> = None;
                for y in [n.a, n.b, n.c] {
                    if y != NIL {
                        let s = self.varsets[&y].clone();
                        if !s.is_empty() { kids += 1; single = Some(s.clone()); v.extend(s.iter()); }
                    }
                }
                let rc = if kids == 1 && n.op != Var { single.unwrap() } else { v.sort(); v.dedup(); Rc::new(v) };
                self.varsets.insert(x, rc);
            }
        }
        self.varsets[&t].clone()
    }

    pub fn eval(&self, t: T, m: &Model, memo: &mut HashMap<T, u128>) -> u128 {
        if let Some(&v) = memo.get(&t) { return v; }
        let mut stack = vec![t];
        while let Some(&x) = stack.last() {
            if memo.contains_key(&x) { stack.pop(); continue; }
            let n = *self.n(x);
            let mut ready = true;
            for y in [n.a, n.b, n.c] {
                if y != NIL && !memo.contains_key(&y) { stack.push(y); ready = false; }
            }
            if !ready { continue; }
            stack.pop();
            let g = |y: T| memo[&y];
            let w = n.w as u32;
            let mk = if w == 0 { 0 } else { mask(w) };
            let fv = |y: T| f64::from_bits(memo[&y] as u64);
            let fb = |f: f64| f.to_bits() as u128;
            let v = match n.op {
                Const | FConst => n.k,
                Var => m.get(&(n.k as u32)).copied().unwrap_or(self.var_default(n.k as u32)) & mk,
                Add => g(n.a).wrapping_add(g(n.b)) & mk,
                Mul => g(n.a).wrapping_mul(g(n.b)) & mk,
                UDiv => if g(n.b) == 0 { mk } else { g(n.a) / g(n.b) },
                URem => if g(n.b) == 0 { g(n.a) } else { g(n.a) % g(n.b) },
                SDiv => { let (x, y) = (sx(g(n.a), w), sx(g(n.b), w)); if y == 0 { if x < 0 { 1 } else { mk } } else { x.wrapping_div(y) as u128 & mk } }
                SRem => { let (x, y) = (sx(g(n.a), w), sx(g(n.b), w)); if y == 0 { g(n.a) } else { x.wrapping_rem(y) as u128 & mk } }
                And => g(n.a) & g(n.b),
                Or => g(n.a) | g(n.b),
                Xor => g(n.a) ^ g(n.b),
                Not => !g(n.a) & mk,
                Neg => (!g(n.a)).wrapping_add(1) & mk,
                Shl => { let s = g(n.b); if s >= w as u128 { 0 } else { (g(n.a) << s) & mk } }
                LShr => { let s = g(n.b); if s >= w as u128 { 0 } else { g(n.a) >> s } }
                AShr => { let s = g(n.b).min(w as u128 - 1); (sx(g(n.a), w) >> s) as u128 & mk }
                Eq => (g(n.a) == g(n.b)) as u128,
                Ult => (g(n.a) < g(n.b)) as u128,
                Slt => { let ww = self.w(n.a); (sx(g(n.a), ww) < sx(g(n.b), ww)) as u128 }
                Ite | FIte => if g(n.a) == 1 { g(n.b) } else { g(n.c) },
                Extract => (g(n.a) >> n.k) & mk,
                Concat => (g(n.a) << self.w(n.b)) | g(n.b),
                ZExt => g(n.a),
                SExt => sx(g(n.a), self.w(n.a)) as u128 & mk,
                Clz => (g(n.a).leading_zeros() - (128 - w)) as u128,
                Ctz => { let x = g(n.a); if x == 0 { w as u128 } else { x.trailing_zeros() as u128 } }
                Pop => g(n.a).count_ones() as u128,
                Table => { let tb = &self.tabs[n.k as usize]; *tb.get(g(n.a) as usize).unwrap_or(&0) }
                FTab => { let tb = &self.ftabs[n.k as usize]; fb(*tb.get(g(n.a) as usize).unwrap_or(&0.0)) }
                FAdd => fb(fv(n.a) + fv(n.b)),
                FSub => fb(fv(n.a) - fv(n.b)),
                FMul => fb(fv(n.a) * fv(n.b)),
                FDiv => fb(fv(n.a) / fv(n.b)),
                FNeg => fb(-fv(n.a)),
                FAbs => fb(fv(n.a).abs()),
                FLo => fb(fv(n.a)),
                FLn => fb(fv(n.a).ln()),
                FFromU => fb(g(n.a) as f64),
                FFromS => fb(sx(g(n.a), self.w(n.a)) as f64),
                FFromBits => g(n.a),
                FBits => g(n.a),
                FEq => (fv(n.a) == fv(n.b)) as u128,
                FLt => (fv(n.a) < fv(n.b)) as u128,
                FLe => (fv(n.a) <= fv(n.b)) as u128,
            };
            memo.insert(x, v);
        }
        memo[&t]
    }
}

impl Node {
    fn b_or_nil(&self) -> T { if self.b == NIL { 0 } else { self.b } }
}

pub fn sx(v: u128, w: u32) -> i128 {
    if w >= 128 { return v as i128; }
    let s = 128 - w;
    ((v << s) as i128) >> s
}
