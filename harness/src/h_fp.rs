//! Harnesses over the estimators (doubles).
use crate::sk::*;
use crate::sym::{self, check, notef, param};
use crate::val::{self, Val};

const TOL: f64 = 1e-9;
pub const TWO32: f64 = 4294967296.0;

/// registers r1 (the first f), r2 (up to g) and 0 (the rest), all of them arbitrary
pub fn split_regs(p: u8, bits: u32) -> Regs {
    let m = m_of(p);
    let (a, b, c) = (sym::upto(m as u64), sym::upto(m as u64), sym::upto(m as u64));
    sym::assume(a + b + c == m as u64);
    let rs = arb_n(2, p, bits);
    let mut v = Vec::with_capacity(m);
    let mut i = 0;
    while i < m {
        let k = i as u64;
        v.push(if k < a { rs[0] } else if k < a + b { rs[1] } else { 0 });
        i += 1;
    }
    let z = c + if rs[0] == 0 { a } else { 0 } + if rs[1] == 0 { b } else { 0 };
    Regs { v, z }
}
/// param 1: 0 = all registers arbitrary, 1 = one word's worth repeated, 2 = three arbitrary runs
fn shape(p: u8, bits: u32, kind: u64) -> Regs {
    match kind { 0 => arb_regs(p, bits), 1 => cyc_regs(p, bits, if bits == 32 { 6 } else { 5 }), _ => split_regs(p, bits) }
}

// ---- C11
pub fn pf_spec(c: f64, regs: &[u64], v: u64) {
    let m = regs.len();
    let e = raw_estimate(regs);
    let small = 2.5 * m as f64;
    let large = TWO32 / 30.0;
    let d = 1e-9;
    if v > 0 && e <= small * (1.0 - d) {
        check(near(c, lin_count(m, v), TOL), 1);
        sym::reach(1);
    } else if v > 0 && e <= small * (1.0 + d) {
        check(near(c, lin_count(m, v), TOL) || near(c, e, TOL), 2);
    } else if e <= large * (1.0 - d) {
        check(near(c, e, TOL), 3);
        sym::reach(2);
    } else if e <= large * (1.0 + d) {
        check(near(c, e, TOL) || near(c, -TWO32 * (1.0 - e / TWO32).ln(), TOL), 4);
    } else if e <= TWO32 * (1.0 - 1e-6) {
        check(near(c, -TWO32 * (1.0 - e / TWO32).ln(), 1e-8), 5);
        sym::reach(3);
    } else {
        // the formula exceeds 13.8 * 2^32 from here on, and has no value at all from 2^32 on
        check(c > TWO32 * 13.0 && c < 1e15, 6);
        sym::reach(4);
    }
}
pub fn h_pf_count() {
    let p = params_p();
    let regs = shape(p, 32, param(1));
    let mut s = pf_from(p, &regs);
    let c = s.count();
    notef(1, c);
    pf_spec(c, &regs, regs.z);
    sym::reach(9);
}

// ---- C12, C13
fn plus_spec(c: f64, p: u8, regs: &[u64], v: u64, full: bool) {
    let m = regs.len();
    let thr = THRESHOLDS[p as usize - 4];
    let d = 1e-9;
    let mut linear = 0; // 0 no, 1 yes, 2 either
    if v > 0 {
        let l = lin_count(m, v);
        linear = if l <= thr * (1.0 - d) { 1 } else if l <= thr * (1.0 + d) { 2 } else { 0 };
        if linear == 1 {
            check(near(c, l, TOL), 1);
            sym::reach(1);
            return;
        }
        if linear == 2 && near(c, l, TOL) { return; }
    }
    let e = raw_estimate(regs);
    let cut = 5.0 * m as f64;
    let diff = e - c;
    if e > cut * (1.0 + d) {
        check(near(c, e, TOL), 2);
        sym::reach(2);
        return;
    }
    if e > cut * (1.0 - d) && near(c, e, TOL) { return; }
    sym::reach(3);
    if full {
        // the bias subtracted is the published one
        check(near(c + bias_at(p, e), e, 1e-8), 3);
    } else {
        // only the selection: some bias within the range of the published ones is subtracted
        let (mut lo, mut hi) = (0.0, 0.0);
        for b in bias_table(p) { if *b < lo { lo = *b; } if *b > hi { hi = *b; } }
        check(diff >= lo - 1e-6 * m as f64 && diff <= hi + 1e-6 * m as f64, 4);
    }
}
pub fn h_plus_select() {
    let p = params_p();
    let regs = shape(p, 64, param(1));
    let mut s = pl_from(p, &regs);
    let c = s.count();
    notef(1, c);
    plus_spec(c, p, &regs, regs.z, false);
    sym::reach(9);
}
/// V = param(2) registers are zero, the others arbitrary (param 3 arbitrary values repeated)
pub fn h_plus_bias() {
    let p = params_p();
    let m = m_of(p);
    let v = param(1) as usize;
    let k = param(2) as usize;
    let f = if k == 0 { arb_n(m - v, p, 64) } else { arb_n(k, p, 64) };
    let mut regs = Vec::with_capacity(m);
    let mut i = 0;
    while i < m - v {
        let r = if k == 0 { f[i] } else { f[i % k] };
        if i < f.len() { sym::assume(r >= 1); }
        regs.push(r);
        i += 1;
    }
    while i < m { regs.push(0); i += 1; }
    let mut s: Pl = val::de(&pl_state_words(p, pack(&regs, 6), v as u64));
    let c = s.count();
    notef(1, c);
    plus_spec(c, p, &regs, v as u64, true);
    sym::reach(9);
}

// ---- C14
pub fn lc24(n: u64) -> f64 { let m = 16777216.0; m * (m / (m - n as f64)).ln() }
pub fn h_sparse_count() {
    let p = params_p();
    let (fill, k) = (param(1), param(2));
    let mut s = pl(p);
    let mut hs = Vec::new();
    if fill == 0 { check(s.count() == 0.0, 1); }
    for i in 0..fill { s.insert(&filler(i)); }
    let before = s.count();
    let nb = fill as f64;
    check(before >= nb - 1e-6 && before <= lc24(fill) + 1e-6, 2);
    for _ in 0..k { let h = sym::u64(); s.insert(&h); hs.push(h); }
    let mut new = 0u64;
    for i in 0..hs.len() {
        let key = sparse_key(hs[i], p);
        let mut dup = false;
        for j in 0..i { dup |= key == sparse_key(hs[j], p); }
        // the fillers are the index range 1..=fill with rank 1 and, for them, never flagged as all-zero beyond p
        let idx = key >> 8;
        let low = idx & ((1 << (25 - p as u64)) - 1);
        dup |= (idx >= 1) & (idx <= fill) & ((low != 0) | (key & 0xff == 1));
        new += !dup as u64;
    }
    let n = sym::conc(fill + new);
    let c = s.count();
    check(c >= n as f64 - 1e-6 && c <= lc24(n) + 1e-6, 3);
    check(abs(c - n as f64) <= 0.01 * n as f64, 4);
    sym::reach(1);
}

// ---- C20
pub fn h_pf_finite() {
    let p = params_p();
    let regs = shape(p, 32, param(1));
    let mut s = pf_from(p, &regs);
    let c = s.count();
    check(c >= 0.0 && c < 1e15, 1);
    sym::reach(1);
}
pub fn h_plus_finite() {
    let p = params_p();
    let regs = shape(p, 64, param(1));
    let mut s = pl_from(p, &regs);
    let c = s.count();
    check(c >= -1e-9 && c < 1e30, 1);
    sym::reach(1);
}
/// sequences of operations on two sketches; param 1: number of operations, param 2: what the i-th one is (base 6 digits)
pub fn h_ops() {
    let p = params_p();
    let (n, mut code) = (param(1), param(2));
    let mut a = pl(p);
    let mut b = pl2(p);
    let mut f = pf(p.min(16));
    let mut g = pf2(p.min(16));
    let small = p <= 4;
    for i in 0..n {
        let any = || if small { sym::u64() } else { crate::h_big::window(crate::h_big::stream(p, 9, i * 5 + 4), 8) };
        match code % 6 {
            0 => { let h = any(); a.insert(&h); if small { f.insert(&h); } }
            1 => { let h = any(); b.insert_any(&h); if small { g.insert_any(&h); } }
            2 => { let c = a.count(); check(c >= -1e-9 && c < 1e30, 1); if small { let c = f.count(); check(c >= 0.0 && c < 1e30, 2); } }
            3 => { check(a.merge(&b).is_ok(), 3); if small { check(f.merge(&g).is_ok(), 3); } }
            4 => { check(b.merge(&a).is_ok(), 4); if small { check(g.merge(&f).is_ok(), 4); } }
            _ => { let regs = zero_regs(p); check(a.merge(&pl2_from(p, &regs)).is_ok(), 5); }
        }
        code /= 6;
    }
    let c = a.count();
    check(c >= -1e-9 && c < 1e30, 6);
    let c = b.count();
    check(c >= -1e-9 && c < 1e30, 7);
    sym::reach(1);
}
/// arbitrary valid dense state, one operation of each kind: no panic
pub fn h_dense_ops() {
    let p = params_p();
    let ra = some_regs(p, 64, 5);
    let rb = some_regs(p, 64, 5);
    let mut a = pl_from(p, &ra);
    let b = pl2_from(p, &rb);
    a.insert(&sym::u64());
    check(a.merge(&b).is_ok(), 1);
    a.insert(&sym::u64());
    let v = val::ser(&a);
    check(matches!(v, Val::Struct(_)), 2);
    sym::reach(1);
}
pub fn h_pf_ops() {
    let p = params_p();
    let ra = some_regs(p, 32, 5);
    let rb = some_regs(p, 32, 5);
    let mut a = pf_from(p, &ra);
    let b = pf_from(p, &rb);
    a.insert(&sym::u64());
    check(a.merge(&b).is_ok(), 1);
    a.insert(&sym::u64());
    let v = val::ser(&a);
    check(matches!(v, Val::Struct(_)), 2);
    sym::reach(1);
}

// ---- C11, C12, C13 at any precision: concrete registers that put the estimate next to a boundary (or into a chosen
// segment of the bias table), the last two registers arbitrary
/// v zero registers, n1 of rank r, n2 of rank r + 1, then k arbitrary ones (at least `low`)
pub fn mixed(p: u8, bits: u32, v: usize, n1: usize, r: u64, k: usize, low: u64) -> Regs {
    let m = m_of(p);
    let mut x = Vec::with_capacity(m);
    let mut i = 0;
    while i < m - k { x.push(if i < v { 0 } else if i < v + n1 { r } else { r + 1 }); i += 1; }
    let s = arb_n(k, p, bits);
    let mut z = v as u64;
    for r in s.iter() { if low > 0 { sym::assume(*r >= low); } z += (*r == 0) as u64; x.push(*r); }
    Regs { v: x, z }
}
/// n1 such that n1 * 2^-r + (n - n1) * 2^-(r+1) is the greatest value <= s, for the right r
fn split_sum(n: usize, s: f64, top: u64) -> (u64, usize) {
    let mut r = 0u64;
    while r < top && n as f64 * pow2m(r + 1) > s { r += 1; }
    // all at r+1 gives n * 2^-(r+1) <= s; each one raised to r adds 2^-(r+1)
    let extra = (s - n as f64 * pow2m(r + 1)) / pow2m(r + 1);
    let n1 = if extra <= 0.0 { 0 } else if extra >= n as f64 { n } else { extra as usize };
    (r, n1)
}
pub fn h_pf_edge() {
    let p = params_p();
    let which = param(1);
    let k = 2;
    let m = m_of(p);
    let mf = m as f64;
    let am2 = alpha(m) * mf * mf;
    let top = max_rank(32, p) - 1;
    let regs = match which {
        // 2.5 m with zero registers
        0 => {
            let s = am2 / (2.5 * mf) - 0.5;
            let v = if p < 6 { 1 } else { m / 32 };
            let (r, n1) = split_sum(m - k - v, s - v as f64, top);
            mixed(p, 32, v, n1, r, k, 0)
        }
        // 2^32 / 30
        1 => { let (r, n1) = split_sum(m - k, am2 * 30.0 / TWO32 * 0.8, top); mixed(p, 32, 0, n1, r, k, 1) }
        // 2^32 and everything near the top
        2 => mixed(p, 32, 0, 0, top, k, 1),
        // the middle range without zero registers, below and above 2.5 m
        3 => { let (r, n1) = split_sum(m - k, am2 / (2.5 * mf) - 0.5, top); mixed(p, 32, 0, n1, r, k, 1) }
        // between 2^32/30 and 2^32
        _ => { let (r, n1) = split_sum(m - k, am2 * 6.0 / TWO32 * 0.9, top); mixed(p, 32, 0, n1, r, k, 1) }
    };
    let mut s = pf_from(p, &regs);
    let c = s.count();
    notef(1, c);
    pf_spec(c, &regs, regs.z);
    sym::reach(9);
}
pub fn h_plus_edge() {
    let p = params_p();
    let which = param(1);
    let k = 2;
    let m = m_of(p);
    let mf = m as f64;
    let regs = match which {
        // around the linear counting threshold
        0 => {
            let thr = THRESHOLDS[p as usize - 4];
            // the smallest V whose linear count is within the threshold
            let (mut lo, mut hi) = (0, m);
            while hi - lo > 1 { let v = (lo + hi) / 2; if lin_count(m, v as u64) <= thr { hi = v } else { lo = v } }
            let v = hi - 1 + sym::conc(sym::upto(2)) as usize - if hi > 1 { 1 } else { 0 };
            mixed(p, 64, v, m / 3, 1, k, 1)
        }
        // raw estimate around 5 m
        1 => { let k = if p < 7 { 1 } else { 2 }; let (r, n1) = split_sum(m - k, alpha(m) * mf / 5.0 - 0.25 * k as f64, 50); mixed(p, 64, 0, n1, r, k, 1) }
        // far beyond: no correction
        2 => mixed(p, 64, 0, m / 2, 20, k, 1),
        // few zero registers (linear count above the threshold), low raw estimate
        3 => {
            let thr = THRESHOLDS[p as usize - 4] * 1.3;
            let (mut lo, mut hi) = (1, m);
            while hi - lo > 1 { let v = (lo + hi) / 2; if lin_count(m, v as u64) <= thr { hi = v } else { lo = v } }
            mixed(p, 64, lo - 1, m, 1, k, 0)
        }
        // half of the threshold
        _ => {
            let thr = THRESHOLDS[p as usize - 4] * 0.5;
            let (mut lo, mut hi) = (1, m);
            while hi - lo > 1 { let v = (lo + hi) / 2; if lin_count(m, v as u64) <= thr { hi = v } else { lo = v } }
            mixed(p, 64, hi - 1, m / 3, 1, k, 0)
        }
    };
    let mut s = pl_from(p, &regs);
    let c = s.count();
    notef(1, c);
    plus_spec(c, p, &regs, regs.z, true);
    sym::reach(9);
}
/// segments param 1 .. param 2 of the bias table (segment j ends at point j; 0 and the number of points lie outside the table)
pub fn h_plus_seg() {
    let p = params_p();
    let (j0, j1) = (param(1) as usize, param(2) as usize);
    let m = m_of(p);
    let mf = m as f64;
    let k = 1;
    let t = raw_table(p);
    let n = t.len();
    let thr = THRESHOLDS[p as usize - 4];
    let mut done = 0;
    // any of the segments
    let j = j0 + sym::conc(sym::upto((j1.min(n + 1) - j0 - 1) as u64)) as usize;
    {
        let (lo, hi) = (if j == 0 { t[0] * 0.98 } else { t[j - 1] }, if j == n { t[n - 1] * 1.01 } else { t[j] });
        let e = lo + (hi - lo) * 0.375;
        let s = alpha(m) * mf * mf / e - 0.25;
        let mut plan = None;
        if s <= (m - k) as f64 * 0.5 {
            let (r, n1) = split_sum(m - k, s, 50);
            plan = Some((0, n1, r));
        } else {
            // zero registers are needed: all others at rank 1 or beyond
            let v = ((s - (m - k) as f64 * 0.5) / 0.5) as usize;
            if v < m - k && v > 0 && lin_count(m, v as u64) > thr * (1.0 + 1e-6) { plan = Some((v, m, 1)); }
        }
        if let Some((v, n1, r)) = plan {
            let regs = mixed(p, 64, v, n1, r, k, 1);
            let mut s = pl_from(p, &regs);
            let c = s.count();
            plus_spec(c, p, &regs, regs.z, true);
            done += 1;
        }
    }
    sym::note(1, done);
    check(true, 9);
    if done > 0 { sym::reach(9); }
}

/// any rank in one register, the others at `base`: 0 zeros, 1 ones, 2 twos, 3 the same rank; params p, base
pub fn h_pf_rank() {
    let p = params_p();
    let regs = rank_regs(p, 32);
    let mut s = pf_from(p, &regs);
    let c = s.count();
    check(c >= 0.0 && c < 1e30, 8);
    pf_spec(c, &regs, regs.z);
    sym::reach(9);
}
pub fn h_plus_rank() {
    let p = params_p();
    let regs = rank_regs(p, 64);
    let mut s = pl_from(p, &regs);
    let c = s.count();
    check(c >= -1e-9 && c < 1e30, 8);
    plus_spec(c, p, &regs, regs.z, true);
    sym::reach(9);
}
fn rank_regs(p: u8, bits: u32) -> Regs {
    let m = m_of(p);
    let r = sym::conc(sym::upto(max_rank(bits, p)));
    // the register: first, middle or last, beside an arbitrary one of 1..=2
    let at = [0, m / 2 + 1, m - 1][sym::conc(sym::upto(2)) as usize];
    let o = match param(1) { 3 => r, b => b };
    let mut v = vec![o; m];
    v[at] = r;
    v[(at + 3) % m] = sym::range(1, 2);
    let z = zeros(&v);
    Regs { v, z }
}
