//! SMT-LIB2 back end (one z3 process kept alive) and the real-arithmetic encoding of doubles.
use crate::term::*;

use std::fmt::Write as _;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::rc::Rc;
use std::time::Instant;

pub enum Res { Unsat, Sat(Model, HashMap<String, f64>), Unknown(String) }

/// one solver process with what it has been told
struct Proc {
    child: Child,
    sin: ChildStdin,
    sout: BufReader<ChildStdout>,
    sent: HashSet<T>,
    decl: HashSet<String>,
    buf: String,
    bv: bool,
}

pub struct Smt {
    p: Proc,
    alt: Proc,
    watch: std::sync::Arc<std::sync::Mutex<Option<(u32, Instant)>>>,
    pub queries: u64,
    pub n_sat: u64,
    pub n_unsat: u64,
    pub n_unknown: u64,
    pub time: f64,
    pub max_time: f64,
    pub timeout_ms: u64,
    pub solver: String,
    // real encoding
    pub sums: HashMap<Vec<T>, usize>,
    pub sumlist: Vec<(Vec<T>, f64, f64)>,
    fpcons: HashMap<T, Rc<Vec<String>>>,
    avars: HashMap<T, Rc<Vec<u64>>>,
    pub link_limit: u128,
    pub fallback: u64,
    pub dump: Option<String>,
}

fn spawn(solver: &str) -> (Child, ChildStdin, BufReader<ChildStdout>) {
    let mut c = Command::new(solver).arg("-in").arg("-smt2").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("solver");
    let i = c.stdin.take().unwrap();
    let o = BufReader::new(c.stdout.take().unwrap());
    (c, i, o)
}

pub fn rat(f: f64) -> String {
    if f == 0.0 { return "0.0".into(); }
    let b = f.to_bits();
    let e = ((b >> 52) & 0x7ff) as i32;
    let mut m = (b & ((1 << 52) - 1)) as u128;
    let mut ex;
    if e == 0 { ex = -1074; } else { m |= 1 << 52; ex = e - 1075; }
    while m & 1 == 0 { m >>= 1; ex += 1; }
    let s = if ex >= 0 {
        // m * 2^ex
        let mut big = m.to_string();
        let mut k = ex;
        while k > 0 { let s = k.min(60); big = mulstr(&big, 1u64 << s); k -= s; }
        format!("{}.0", big)
    } else {
        let mut big = "1".to_string();
        let mut k = -ex;
        while k > 0 { let s = k.min(60); big = mulstr(&big, 1u64 << s); k -= s; }
        format!("(/ {}.0 {}.0)", m, big)
    };
    if f < 0.0 { format!("(- {})", s) } else { s }
}
fn mulstr(a: &str, k: u64) -> String {
    let mut carry: u128 = 0;
    let mut out: Vec<u8> = vec![];
    for c in a.bytes().rev() {
        let v = (c - b'0') as u128 * k as u128 + carry;
        out.push(b'0' + (v % 10) as u8);
        carry = v / 10;
    }
    while carry > 0 { out.push(b'0' + (carry % 10) as u8); carry /= 10; }
    while out.len() > 1 && *out.last().unwrap() == b'0' { out.pop(); }
    out.reverse();
    String::from_utf8(out).unwrap()
}

const U: &str = "(/ 1.0 9007199254740992.0)"; // 2^-53

fn header(bv: bool, t: u64) -> String { format!("(set-option :global-declarations true)\n(set-option :timeout {})\n{}", t, if bv { "(set-option :sat.scc false)\n(set-option :sat.probing false)\n(set-option :sat.elim_vars false)\n(set-logic QF_BV)\n" } else { "" }) }

impl Smt {
    pub fn new(solver: &str, timeout_ms: u64) -> Smt {
        let mk = |bv| { let (child, sin, sout) = spawn(solver); Proc { child, sin, sout, sent: HashSet::default(), decl: HashSet::default(), buf: header(bv, timeout_ms), bv } };
        let watch: std::sync::Arc<std::sync::Mutex<Option<(u32, Instant)>>> = Default::default();
        let w2 = watch.clone();
        // a solver that ignores its own limit is ended
        std::thread::spawn(move || loop {
            std::thread::sleep(std::time::Duration::from_millis(250));
            let mut g = w2.lock().unwrap();
            if let Some((pid, end)) = *g { if Instant::now() > end { let _ = Command::new("kill").args(["-9", &pid.to_string()]).status(); *g = None; } }
        });
        let s = Smt {
            p: mk(true), alt: mk(false), watch, queries: 0, n_sat: 0, n_unsat: 0, n_unknown: 0,
            time: 0.0, max_time: 0.0, timeout_ms, solver: solver.into(), sums: HashMap::default(), sumlist: vec![], fpcons: HashMap::default(), avars: HashMap::default(), link_limit: 70, fallback: 0, dump: None,
        };
        s
    }
    fn restart(&mut self) {
        let _ = self.p.child.kill();
        let _ = self.p.child.wait();
        let (c, i, o) = spawn(&self.solver);
        let p = &mut self.p;
        p.child = c;
        p.sin = i;
        p.sout = o;
        p.sent.clear();
        p.decl.clear();
        p.buf = header(p.bv, self.timeout_ms);
    }

    fn name(tm: &Terms, t: T) -> String {
        let n = tm.n(t);
        match n.op {
            Op::Const => if n.w == 1 { if n.k == 1 { "true".into() } else { "false".into() } } else { Self::bvc(n.k, n.w as u32) },
            Op::Var => format!("v{}", n.k),
            Op::FConst => rat(f64::from_bits(n.k as u64)),
            _ => if n.w == 0 { format!("r{}", t) } else { format!("t{}", t) },
        }
    }
    fn bvc(k: u128, w: u32) -> String {
        if w % 4 == 0 { format!("#x{:0>1$x}", k, (w / 4) as usize) } else { format!("#b{:0>1$b}", k, w as usize) }
    }
    /// as a bit-vector even if width 1
    fn bvname(tm: &Terms, t: T) -> String {
        let s = Self::name(tm, t);
        if tm.w(t) == 1 { format!("(ite {} #b1 #b0)", s) } else { s }
    }

    /// leaves of a non-negative sum with at least six terms, none of them computed (register powers)
    pub fn sum_leaves(tm: &Terms, t: T) -> Option<Vec<T>> {
        if tm.n(t).op != Op::FAdd { return None; }
        let mut out = vec![];
        let mut st = vec![t];
        while let Some(x) = st.pop() {
            let n = tm.n(x);
            if n.op == Op::FAdd { st.push(n.a); st.push(n.b); } else {
                if tm.fint[x as usize].0 < 0.0 || matches!(n.op, Op::FSub | Op::FMul | Op::FDiv | Op::FLn | Op::FNeg | Op::FAbs) { return None; }
                out.push(x);
            }
        }
        if out.len() < 6 { return None; }
        out.sort();
        Some(out)
    }
    fn sum_id(&mut self, tm: &Terms, leaves: Vec<T>) -> usize {
        if let Some(&i) = self.sums.get(&leaves) { return i; }
        let (mut lo, mut hi) = (0.0, 0.0);
        for &l in &leaves { let f = tm.fint[l as usize]; lo += f.0; hi += f.1; }
        let i = self.sumlist.len();
        self.sumlist.push((leaves.clone(), lo * (1.0 - 1e-12), hi * (1.0 + 1e-12)));
        self.sums.insert(leaves, i);
        i
    }
    fn linked_u(&self, tm: &Terms, bv: T) -> bool { let r = tm.rng(bv); r.1 - r.0 <= self.link_limit }

    /// abstract variable set used for slicing
    pub fn avars(&mut self, tm: &mut Terms, t: T) -> Rc<Vec<u64>> {
        if let Some(v) = self.avars.get(&t) { return v.clone(); }
        if !tm.has_fp[t as usize] {
            let v: Vec<u64> = tm.varset(t).iter().map(|&x| x as u64).collect();
            let r = Rc::new(v);
            self.avars.insert(t, r.clone());
            return r;
        }
        let n = *tm.n(t);
        let mut v: Vec<u64> = vec![];
        if let Some(l) = Self::sum_leaves(tm, t) {
            let i = self.sum_id(tm, l);
            v.push(1_000_000 + i as u64);
        } else if n.op == Op::FFromU && !self.linked_u(tm, n.a) {
            v.push(2_000_000_000 + n.a as u64);
        } else if n.op == Op::FFromS || n.op == Op::FFromBits {
            v.push(2_000_000_000 + n.a as u64);
        } else {
            for y in [n.a, n.b, n.c] { if y != NIL { v.extend(self.avars(tm, y).iter()); } }
            v.sort();
            v.dedup();
        }
        let r = Rc::new(v);
        self.avars.insert(t, r.clone());
        r
    }

    /// constraints defining the real image of double term t (and of everything below it)
    fn fp_cons(&mut self, tm: &mut Terms, t: T) -> Rc<Vec<String>> {
        if let Some(c) = self.fpcons.get(&t) { return c.clone(); }
        let n = *tm.n(t);
        let r = format!("r{}", t);
        let mut c: Vec<String> = vec![];
        let nm = |tm: &Terms, x: T| Self::name(tm, x);
        if n.op != Op::FConst { self.declare(&r, "Real"); }
        let iv = tm.fint[t as usize];
        let rel = |c: &mut Vec<String>, r: &str, e: &str, nonneg: Option<bool>, k: u32| {
            // |r - e| <= k*u*|e|
            let u = if k == 1 { U.to_string() } else { format!("(* {}.0 {})", k, U) };
            match nonneg {
                Some(true) => c.push(format!("(and (<= (* (- 1.0 {u}) {e}) {r}) (<= {r} (* (+ 1.0 {u}) {e})))")),
                Some(false) => c.push(format!("(and (<= (* (+ 1.0 {u}) {e}) {r}) (<= {r} (* (- 1.0 {u}) {e})))")),
                None => c.push(format!("(let ((e {e})) (ite (>= e 0.0) (and (<= (* (- 1.0 {u}) e) {r}) (<= {r} (* (+ 1.0 {u}) e))) (and (<= (* (+ 1.0 {u}) e) {r}) (<= {r} (* (- 1.0 {u}) e)))))")),
            }
        };
        let sign = if iv.0 >= 0.0 { Some(true) } else if iv.1 <= 0.0 { Some(false) } else { None };
        match n.op {
            Op::FConst => {}
            Op::FAdd if Self::sum_leaves(tm, t).is_some() => {
                let l = Self::sum_leaves(tm, t).unwrap();
                let k = l.len() as u32;
                let i = self.sum_id(tm, l);
                let s = format!("s{}", i);
                self.declare(&s, "Real");
                let (lo, hi) = (self.sumlist[i].1, self.sumlist[i].2);
                c.push(format!("(and (<= {} {s}) (<= {s} {}))", rat(lo), rat(hi)));
                rel(&mut c, &r, &s, Some(true), k + 1);
            }
            Op::FAdd => { let e = format!("(+ {} {})", nm(tm, n.a), nm(tm, n.b)); rel(&mut c, &r, &e, sign, 1); }
            Op::FSub => { let e = format!("(- {} {})", nm(tm, n.a), nm(tm, n.b)); rel(&mut c, &r, &e, sign, 1); }
            Op::FMul => { let e = format!("(* {} {})", nm(tm, n.a), nm(tm, n.b)); rel(&mut c, &r, &e, sign, 1); }
            Op::FDiv => {
                let (a, b) = (nm(tm, n.a), nm(tm, n.b));
                let bi = tm.fint[n.b as usize];
                let ai = tm.fint[n.a as usize];
                // r*b within u of a
                if tm.fval(n.b).is_some() { let e = format!("(/ {} {})", a, b); rel(&mut c, &r, &e, sign, 1); }
                else if bi.0 > 0.0 && ai.0 >= 0.0 {
                    c.push(format!("(let ((p (* {r} {b}))) (and (<= (* (- 1.0 {U}) {a}) p) (<= p (* (+ 1.0 {U}) {a}))))"));
                } else {
                    c.push(format!("(let ((p (* {r} {b}))) (ite (>= {a} 0.0) (and (<= (* (- 1.0 {U}) {a}) p) (<= p (* (+ 1.0 {U}) {a}))) (and (<= (* (+ 1.0 {U}) {a}) p) (<= p (* (- 1.0 {U}) {a})))))"));
                }
            }
            Op::FNeg => c.push(format!("(= {r} (- {}))", nm(tm, n.a))),
            Op::FLo => c.push(format!("(= {r} {})", nm(tm, n.a))),
            Op::FAbs => { let a = nm(tm, n.a); c.push(format!("(= {r} (ite (>= {a} 0.0) {a} (- {a})))")); }
            Op::FLn => {} // bounds below, pairwise axioms added per query
            Op::FFromU => {
                let rg = tm.rng(n.a);
                if self.linked_u(tm, n.a) {
                    let b = Self::name(tm, n.a);
                    let w = tm.w(n.a);
                    let mut s = String::new();
                    let mut cnt = 0;
                    for v in rg.0..rg.1 {
                        if w == 1 { let _ = write!(s, "(ite (not {}) {} ", b, rat(v as f64)); } else { let _ = write!(s, "(ite (= {} {}) {} ", b, Self::bvc(v, w), rat(v as f64)); }
                        cnt += 1;
                    }
                    let _ = write!(s, "{}", rat(rg.1 as f64));
                    for _ in 0..cnt { s.push(')'); }
                    c.push(format!("(= {r} {s})"));
                } else {
                    let q = format!("n{}", n.a);
                    self.declare(&q, "Real");
                    c.push(format!("(and (<= {} {q}) (<= {q} {}))", rat(rg.0 as f64), rat(rg.1 as f64)));
                    if rg.1 < (1 << 53) { c.push(format!("(= {r} {q})")); } else { rel(&mut c, &r, &q, Some(true), 1); }
                }
            }
            Op::FTab => {
                let b = Self::name(tm, n.a);
                let w = tm.w(n.a);
                let tb = tm.ftabs[n.k as usize].clone();
                let rg = tm.rng(n.a);
                let mut s = String::new();
                let mut cnt = 0;
                let hi = (rg.1 as usize).min(tb.len() - 1);
                for v in rg.0 as usize..hi {
                    if w == 1 { let _ = write!(s, "(ite (not {}) {} ", b, rat(tb[v])); } else { let _ = write!(s, "(ite (= {} {}) {} ", b, Self::bvc(v as u128, w), rat(tb[v])); }
                    cnt += 1;
                }
                let _ = write!(s, "{}", rat(tb[hi]));
                for _ in 0..cnt { s.push(')'); }
                c.push(format!("(= {r} {s})"));
            }
            Op::FIte => c.push(format!("(= {r} (ite {} {} {}))", nm(tm, n.a), nm(tm, n.b), nm(tm, n.c))),
            _ => {}
        }
        if n.op != Op::FConst {
            // interval bounds
            if iv.0.is_finite() { c.push(format!("(<= {} {r})", rat(iv.0))); }
            if iv.1.is_finite() { c.push(format!("(<= {r} {})", rat(iv.1))); }
        }
        let rc = Rc::new(c);
        self.fpcons.insert(t, rc.clone());
        rc
    }

    fn declare(&mut self, n: &str, sort: &str) {
        if self.p.decl.insert(n.to_string()) { let _ = write!(self.p.buf, "(declare-const {} {})\n", n, sort); }
    }

    /// make sure t is defined in the solver
    fn send(&mut self, tm: &mut Terms, t: T) {
        let mut stack = vec![(t, false)];
        while let Some((x, done)) = stack.pop() {
            if self.p.sent.contains(&x) { continue; }
            let n = *tm.n(x);
            match n.op {
                Op::Const | Op::FConst => continue,
                Op::Var => {
                    self.p.sent.insert(x);
                    let s = if n.w == 1 { "Bool".to_string() } else { format!("(_ BitVec {})", n.w) };
                    let name = format!("v{}", n.k);
                    if !self.p.decl.contains(&name) {
                        self.declare(&name, &s);
                        if let (Some(r), true) = (tm.var_range.get(&(n.k as u32)), n.w > 1) {
                            let w = n.w;
                            let _ = write!(self.p.buf, "(assert (and (bvule (_ bv{} {w}) {name}) (bvule {name} (_ bv{} {w}))))\n", r.0, r.1);
                        }
                    }
                    continue;
                }
                _ => {}
            }
            if n.w == 0 {
                // double: declare the real and recurse unless cut
                self.declare(&format!("r{}", x), "Real");
                if Self::sum_leaves(tm, x).is_some() { self.p.sent.insert(x); continue; }
            }
            if !done {
                stack.push((x, true));
                for y in [n.a, n.b, n.c] { if y != NIL { stack.push((y, false)); } }
                continue;
            }
            self.p.sent.insert(x);
            if n.w == 0 { continue; }
            let w = n.w as u32;
            let nm = |y: T| Self::name(tm, y);
            let bn = |y: T| Self::bvname(tm, y);
            let sort = if w == 1 { "Bool".to_string() } else { format!("(_ BitVec {})", w) };
            let bin = |s: &str| format!("({} {} {})", s, bn(n.a), bn(n.b));
            let body = if w == 1 {
                match n.op {
                    Op::And => format!("(and {} {})", nm(n.a), nm(n.b)),
                    Op::Or => format!("(or {} {})", nm(n.a), nm(n.b)),
                    Op::Xor => format!("(xor {} {})", nm(n.a), nm(n.b)),
                    Op::Not => format!("(not {})", nm(n.a)),
                    Op::Eq => format!("(= {} {})", nm(n.a), nm(n.b)),
                    Op::Ult => bin("bvult"),
                    Op::Slt => bin("bvslt"),
                    Op::Ite => format!("(ite {} {} {})", nm(n.a), nm(n.b), nm(n.c)),
                    Op::Extract => format!("(= ((_ extract {} {}) {}) #b1)", n.k, n.k, bn(n.a)),
                    Op::FEq => format!("(= {} {})", nm(n.a), nm(n.b)),
                    Op::FLt => format!("(< {} {})", nm(n.a), nm(n.b)),
                    Op::FLe => format!("(<= {} {})", nm(n.a), nm(n.b)),
                    Op::Table => format!("(= {} #b1)", self.table_expr(tm, n.a, n.k as usize, 1)),
                    Op::Add => format!("(xor {} {})", nm(n.a), nm(n.b)),
                    Op::Mul => format!("(and {} {})", nm(n.a), nm(n.b)),
                    _ => format!("(= ({}) #b1)", Self::opname(n.op, tm, &n)),
                }
            } else {
                match n.op {
                    Op::Ite => format!("(ite {} {} {})", nm(n.a), nm(n.b), nm(n.c)),
                    Op::Extract => format!("((_ extract {} {}) {})", n.k as u32 + w - 1, n.k, bn(n.a)),
                    Op::Concat => bin("concat"),
                    Op::ZExt => format!("((_ zero_extend {}) {})", w - tm.w(n.a), bn(n.a)),
                    Op::SExt => format!("((_ sign_extend {}) {})", w - tm.w(n.a), bn(n.a)),
                    Op::Not => format!("(bvnot {})", nm(n.a)),
                    Op::Neg => format!("(bvneg {})", nm(n.a)),
                    Op::Clz => {
                        let a = bn(n.a);
                        let mut s = String::new();
                        for i in 0..w { let _ = write!(s, "(ite (= ((_ extract {} {}) {}) #b1) {} ", w - 1 - i, w - 1 - i, a, Self::bvc(i as u128, w)); }
                        s.push_str(&Self::bvc(w as u128, w));
                        for _ in 0..w { s.push(')'); }
                        s
                    }
                    Op::Ctz => {
                        let a = bn(n.a);
                        let mut s = String::new();
                        for i in 0..w { let _ = write!(s, "(ite (= ((_ extract {} {}) {}) #b1) {} ", i, i, a, Self::bvc(i as u128, w)); }
                        s.push_str(&Self::bvc(w as u128, w));
                        for _ in 0..w { s.push(')'); }
                        s
                    }
                    Op::Pop => {
                        let a = bn(n.a);
                        let mut s = String::from("(bvadd");
                        for i in 0..w { let _ = write!(s, " ((_ zero_extend {}) ((_ extract {} {}) {}))", w - 1, i, i, a); }
                        s.push(')');
                        s
                    }
                    Op::Table => self.table_expr(tm, n.a, n.k as usize, w),
                    Op::UDiv | Op::URem if tm.cval(n.b).map_or(false, |k| k > 0) => {
                        // x = k*q + r, r < k
                        let k = tm.cval(n.b).unwrap();
                        let (q, r) = (format!("q{}_{}", n.a, k), format!("m{}_{}", n.a, k));
                        if !self.p.decl.contains(&q) {
                            self.declare(&q, &sort);
                            self.declare(&r, &sort);
                            let e = 128 - k.leading_zeros();
                            let kc = Self::bvc(k, w + e);
                            let _ = write!(self.p.buf, "(assert (and (bvult {r} {}) (= ((_ zero_extend {e}) {}) (bvadd (bvmul {kc} ((_ zero_extend {e}) {q})) ((_ zero_extend {e}) {r})))))\n", Self::bvc(k, w), bn(n.a));
                            // no overflow inside
                            let _ = write!(self.p.buf, "(assert (bvule {q} {}))\n", Self::bvc(mask(w) / k, w));
                        }
                        if n.op == Op::UDiv { q } else { r }
                    }
                    Op::FBits => {
                        let f = format!("fb{}", x);
                        if !self.p.decl.contains(&f) {
                            self.declare(&f, &sort);
                            let r = tm.rng(x);
                            let _ = write!(self.p.buf, "(assert (and (bvule {} {f}) (bvule {f} {})))\n", Self::bvc(r.0, 64), Self::bvc(r.1, 64));
                        }
                        f
                    }
                    _ => format!("({})", Self::opname(n.op, tm, &n)),
                }
            };
            let _ = write!(self.p.buf, "(define-fun t{} () {} {})\n", x, sort, body);
        }
    }
    fn opname(op: Op, tm: &Terms, n: &Node) -> String {
        let s = match op {
            Op::Add => "bvadd", Op::Mul => "bvmul", Op::UDiv => "bvudiv", Op::SDiv => "bvsdiv", Op::URem => "bvurem", Op::SRem => "bvsrem",
            Op::And => "bvand", Op::Or => "bvor", Op::Xor => "bvxor", Op::Shl => "bvshl", Op::LShr => "bvlshr", Op::AShr => "bvashr",
            o => panic!("smt op {:?}", o),
        };
        format!("{} {} {}", s, Self::bvname(tm, n.a), Self::bvname(tm, n.b))
    }
    fn table_expr(&self, tm: &Terms, idx: T, id: usize, w: u32) -> String {
        let tb = tm.tabs[id].clone();
        let iw = tm.w(idx);
        let b = Self::bvname(tm, idx);
        fn rec(tb: &[u128], b: &str, bit: i32, base: usize, w: u32) -> String {
            if base >= tb.len() { return Smt::bvc(0, w); }
            let span = 1usize << (bit + 1);
            let sl = &tb[base..(base + span).min(tb.len())];
            if sl.iter().all(|x| *x == sl[0]) { return Smt::bvc(sl[0] & mask(w), w); }
            let hi = rec(tb, b, bit - 1, base + (1 << bit), w);
            let lo = rec(tb, b, bit - 1, base, w);
            if hi == lo { return hi; }
            format!("(ite (= ((_ extract {} {}) {}) #b1) {} {})", bit, bit, b, hi, lo)
        }
        let mut bits = 0;
        while (1usize << bits) < tb.len() { bits += 1; }
        rec(&tb, &b, (bits.min(iw) as i32) - 1, 0, w)
    }

    fn fp_cone(tm: &Terms, asserts: &[T]) -> Vec<T> {
        let mut seen = HashSet::default();
        let mut out = vec![];
        let mut st: Vec<T> = asserts.to_vec();
        while let Some(x) = st.pop() {
            if !tm.has_fp[x as usize] || !seen.insert(x) { continue; }
            let n = tm.n(x);
            if n.w == 0 {
                out.push(x);
                if Self::sum_leaves(tm, x).is_some() { continue; }
            }
            for y in [n.a, n.b, n.c] { if y != NIL { st.push(y); } }
        }
        out.sort();
        out
    }

    pub fn check(&mut self, tm: &mut Terms, asserts: &[T], want: &[u32]) -> Res { self.check_with(tm, asserts, want, &[]) }

    pub fn check_with(&mut self, tm: &mut Terms, asserts: &[T], want: &[u32], extra: &[String]) -> Res {
        let t0 = Instant::now();
        self.queries += 1;
        let r = self.check_inner(tm, asserts, want, extra);
        let dt = t0.elapsed().as_secs_f64();
        self.time += dt;
        if dt > self.max_time { self.max_time = dt; }
        match &r { Res::Unsat => self.n_unsat += 1, Res::Sat(..) => self.n_sat += 1, Res::Unknown(_) => self.n_unknown += 1 }
        r
    }

    fn check_inner(&mut self, tm: &mut Terms, asserts: &[T], want: &[u32], extra: &[String]) -> Res {
        let bv = extra.is_empty() && !asserts.iter().any(|&t| tm.has_fp[t as usize]);
        if bv != self.p.bv { std::mem::swap(&mut self.p, &mut self.alt); }
        for &a in asserts { self.send(tm, a); }
        let cone = Self::fp_cone(tm, asserts);
        let mut body = String::new();
        let mut reals: Vec<String> = vec![];
        for &f in &cone {
            let cons = self.fp_cons(tm, f);
            if tm.n(f).op != Op::FConst { self.declare(&format!("r{}", f), "Real"); }
            // re-declare helper constants after a restart
            if let Some(l) = Self::sum_leaves(tm, f) { let i = self.sum_id(tm, l); let s = format!("s{}", i); self.declare(&s, "Real"); if !reals.contains(&s) { reals.push(s); } }
            let n = *tm.n(f);
            if n.op == Op::FFromU && !self.linked_u(tm, n.a) { let q = format!("n{}", n.a); self.declare(&q, "Real"); reals.push(q); }
            if (n.op == Op::FFromU && self.linked_u(tm, n.a)) || n.op == Op::FTab { self.send(tm, n.a); }
            if n.op == Op::FIte { self.send(tm, n.a); }
            for c in cons.iter() { let _ = write!(body, "(assert {})\n", c); }
        }
        // logarithm axioms
        let lns: Vec<T> = cone.iter().cloned().filter(|&f| tm.n(f).op == Op::FLn).collect();
        for (i, &a) in lns.iter().enumerate() {
            // between powers of two
            let x = tm.n(a).a;
            let iv = tm.fint[x as usize];
            for k in -64i32..=64 {
                let b = 2f64.powi(k);
                if b < iv.0 || b > iv.1 { continue; }
                let l = b.ln();
                let (n, r) = (Self::name(tm, x), format!("r{}", a));
                let _ = write!(body, "(assert (and (=> (<= {n} {b}) (<= {r} {hi})) (=> (>= {n} {b}) (>= {r} {lo}))))\n", b = rat(b), hi = rat(l + 1e-13), lo = rat(l - 1e-13));
            }
            for &b in &lns[..i] {
                let (xa, xb) = (Self::name(tm, tm.n(a).a), Self::name(tm, tm.n(b).a));
                let ra = format!("r{}", a); let rb = format!("r{}", b);
                // ln is monotone; ln b - ln a <= (b-a)/a  (slack for the error of each result)
                for (x, y, p, q) in [(&xa, &xb, &ra, &rb), (&xb, &xa, &rb, &ra)] {
                    let _ = write!(body, "(assert (=> (<= {x} {y}) (and (<= (- {p} {q}) 0.00000000000001) (<= (* (- {q} {p} 0.00000000000001) {x}) (- {y} {x})))))\n");
                }
            }
        }
        for &a in asserts { let _ = write!(body, "(assert {})\n", Self::name(tm, a)); }
        for e in extra { let _ = write!(body, "(assert {})\n", e); }
        let mut q = String::new();
        q.push_str(&self.p.buf);
        self.p.buf.clear();
        q.push_str("(push 1)\n");
        q.push_str(&body);
        q.push_str("(check-sat)\n");
        if let Some(d) = &self.dump { let _ = std::fs::OpenOptions::new().append(true).create(true).open(d).map(|mut f| f.write_all(q.as_bytes())); }
        let ans = match self.ask(&q) { Some(a) => a, None => { self.restart(); "died".into() } };
        let mut res = match ans.as_str() {
            "unsat" => Res::Unsat,
            "sat" => {
                let mut m = Model::default();
                let names: Vec<String> = want.iter().filter(|v| self.p.decl.contains(&format!("v{}", v))).map(|v| format!("v{}", v)).collect();
                let mut rv = HashMap::default();
                if !names.is_empty() {
                    let t = self.getval(&format!("(get-value ({}))\n", names.join(" ")));
                    parse_model(&t, &mut m);
                }
                if !reals.is_empty() {
                    let t = self.getval(&format!("(set-option :pp.decimal true)(set-option :pp.decimal_precision 25)(get-value ({}))(set-option :pp.decimal false)\n", reals.join(" ")));
                    parse_reals(&t, &mut rv);
                }
                Res::Sat(m, rv)
            }
            "unknown" | "timeout" | "died" => Res::Unknown("unknown".into()),
            o => { eprintln!("solver said: {}", o); self.restart(); return Res::Unknown(o.to_string()); }
        };
        if ans != "died" && self.ask_nowait("(pop 1)\n").is_none() { self.restart(); }
        if let Res::Unknown(_) = res {
            self.fallback += 1;
            if let Some(r) = self.oneshot(tm, asserts, &body, want, !cone.is_empty() || !extra.is_empty()) { res = r; }
        }
        res
    }

    /// the same query in a fresh process (used when a model of the incremental one does not check)
    pub fn check_fresh(&mut self, tm: &mut Terms, asserts: &[T], want: &[u32]) -> Res {
        self.fallback += 1;
        let body: String = asserts.iter().map(|&a| format!("(assert {})\n", Self::name(tm, a))).collect();
        self.oneshot(tm, asserts, &body, want, false).unwrap_or(Res::Unknown("unknown".into()))
    }

    /// a fresh process with the query alone
    fn oneshot(&mut self, tm: &mut Terms, asserts: &[T], body: &str, want: &[u32], reals: bool) -> Option<Res> {
        // rebuild definitions in a scratch emitter
        let saved_sent = std::mem::take(&mut self.p.sent);
        let saved_decl = std::mem::take(&mut self.p.decl);
        let saved_buf = std::mem::take(&mut self.p.buf);
        for &a in asserts { self.send(tm, a); }
        let cone = Self::fp_cone(tm, asserts);
        for &f in &cone {
            let n = *tm.n(f);
            if n.op != Op::FConst { self.declare(&format!("r{}", f), "Real"); }
            if let Some(l) = Self::sum_leaves(tm, f) { let i = self.sum_id(tm, l); self.declare(&format!("s{}", i), "Real"); }
            if n.op == Op::FFromU && !self.linked_u(tm, n.a) { self.declare(&format!("n{}", n.a), "Real"); } else if n.op == Op::FFromU || n.op == Op::FTab || n.op == Op::FIte { self.send(tm, n.a); }
        }
        let defs = std::mem::replace(&mut self.p.buf, saved_buf);
        let names: Vec<String> = want.iter().filter(|v| self.p.decl.contains(&format!("v{}", v))).map(|v| format!("v{}", v)).collect();
        self.p.sent = saved_sent;
        self.p.decl = saved_decl;
        let secs = (self.timeout_ms / 1000).max(1) * 3;
        let strategies: Vec<(String, String)> = if reals {
            vec![("(set-logic QF_NRA)\n".into(), "(check-sat)\n".into()), (String::new(), "(check-sat-using (then simplify solve-eqs qfnra-nlsat))\n".into())]
        } else {
            vec![("(set-logic QF_BV)\n".into(), "(check-sat)\n".into()), (String::new(), "(check-sat-using (then simplify propagate-values solve-eqs simplify max-bv-sharing bit-blast simplify sat))\n".into())]
        };
        for (lg, cs) in strategies {
            let mut q = format!("{}{}{}{}", lg, defs, body, cs);
            if !names.is_empty() { let _ = write!(q, "(get-value ({}))\n", names.join(" ")); }
            let mut c = Command::new(&self.solver).args(["-in", "-smt2", &format!("-T:{}", secs)]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().ok()?;
            c.stdin.take().unwrap().write_all(q.as_bytes()).ok()?;
            let o = c.wait_with_output().ok()?;
            let s = String::from_utf8_lossy(&o.stdout).into_owned();
            let first = s.lines().next().unwrap_or("").trim().to_string();
            if first == "unsat" { return Some(Res::Unsat); }
            if first == "sat" {
                let mut m = Model::default();
                parse_model(&s[s.find('\n').unwrap_or(0)..], &mut m);
                return Some(Res::Sat(m, HashMap::default()));
            }
            if std::env::var("SE_DUMPUNK").is_ok() { let _ = std::fs::write(format!("/tmp/unk{}.smt2", self.fallback), &q); }
        }
        None
    }

    fn ask(&mut self, q: &str) -> Option<String> {
        let end = Instant::now() + std::time::Duration::from_millis(self.timeout_ms + self.timeout_ms / 4 + 3000);
        *self.watch.lock().unwrap() = Some((self.p.child.id(), end));
        let r = self.ask_inner(q);
        *self.watch.lock().unwrap() = None;
        r
    }
    fn ask_inner(&mut self, q: &str) -> Option<String> {
        self.p.sin.write_all(q.as_bytes()).ok()?;
        self.p.sin.flush().ok()?;
        let mut l = String::new();
        loop {
            l.clear();
            if self.p.sout.read_line(&mut l).ok()? == 0 { return None; }
            let t = l.trim();
            if t.is_empty() { continue; }
            return Some(t.to_string());
        }
    }
    fn ask_nowait(&mut self, q: &str) -> Option<()> {
        self.p.sin.write_all(q.as_bytes()).ok()
    }
    fn getval(&mut self, q: &str) -> String {
        let _ = self.p.sin.write_all(q.as_bytes());
        let _ = self.p.sin.flush();
        // read a balanced s-expression
        let mut s = String::new();
        let mut depth = 0i32;
        loop {
            let mut l = String::new();
            if self.p.sout.read_line(&mut l).unwrap_or(0) == 0 { break; }
            for c in l.chars() { if c == '(' { depth += 1 } else if c == ')' { depth -= 1 } }
            s.push_str(&l);
            if depth == 0 && s.contains('(') { break; }
        }
        s
    }
}

fn parse_model(s: &str, m: &mut Model) {
    // ((v0 #x..) (v1 true))
    let mut it = s.split(|c: char| c.is_whitespace() || c == '(' || c == ')').filter(|x| !x.is_empty());
    while let Some(n) = it.next() {
        if let Some(i) = n.strip_prefix('v').and_then(|x| x.parse::<u32>().ok()) {
            let v = it.next().unwrap_or("");
            let val = if let Some(h) = v.strip_prefix("#x") { u128::from_str_radix(h, 16).unwrap() } else if let Some(b) = v.strip_prefix("#b") { u128::from_str_radix(b, 2).unwrap() } else if v == "true" { 1 } else { 0 };
            m.insert(i, val);
        }
    }
}
fn parse_reals(s: &str, m: &mut HashMap<String, f64>) {
    // ((s0 1.5) (s1 (- 2.0)) (n3 (/ 1.0 3.0)))
    let toks = crate::ir::lex(&s.replace('?', " ").replace('!', " "));
    use crate::ir::Tok;
    fn expr(t: &[Tok], i: &mut usize) -> f64 {
        match &t[*i] {
            Tok::Num(n) => { *i += 1; n.parse().unwrap_or(f64::NAN) }
            Tok::P('(') => {
                *i += 1;
                let op = t[*i].clone();
                *i += 1;
                let mut a = vec![];
                while t[*i] != Tok::P(')') && t[*i] != Tok::Eof { a.push(expr(t, i)); }
                *i += 1;
                match op { Tok::P('/') => a[0] / a[1], Tok::P('-') | Tok::Word(_) if a.len() == 1 => -a[0], _ => f64::NAN }
            }
            _ => { *i += 1; f64::NAN }
        }
    }
    let mut i = 0;
    while i < toks.len() {
        if let Tok::Word(w) = &toks[i] { let w = w.clone(); i += 1; if i < toks.len() - 1 { let v = expr(&toks, &mut i); m.insert(w, v); } } else { i += 1; }
    }
}

impl Drop for Smt {
    fn drop(&mut self) { for p in [&mut self.p, &mut self.alt] { let _ = p.child.kill(); let _ = p.child.wait(); } }
}
