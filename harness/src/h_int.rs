//! Harnesses over integers, bit vectors and containers.
use crate::sk::*;
use crate::sym::{self, check, note, param};
use crate::val::{self, same, Val};

// ---- C01
pub fn h_new_pf() {
    let mut p = sym::bits(8) as u8;
    let good = (p >= 4) & (p <= 16);
    if good { p = sym::conc(p as u64) as u8; }
    match HyperLogLogPF::<u64, PB>::new(p, PB) {
        Ok(mut s) => {
            check(good, 1);
            check(s.count() == 0.0, 2);
            // all 2^p registers exist: the last one can be hit, and the sketch is as precise as asked for
            s.insert(&0xffff_ffff);
            let regs = pf_regs(&s, p);
            check(regs[m_of(p) - 1] == 1, 5);
            let c = s.count();
            check(near(c, lin_count(m_of(p), m_of(p) as u64 - 1), 1e-9), 6);
        }
        Err(e) => {
            check(!good, 3);
            check(e == HyperLogLogError::InvalidPrecision, 4);
        }
    }
    sym::reach(1);
}
pub fn h_new_plus() {
    let mut p = sym::bits(8) as u8;
    let good = (p >= 4) & (p <= 18);
    if good { p = sym::conc(p as u64) as u8; }
    match HyperLogLogPlus::<u64, PB>::new(p, PB) {
        Ok(mut s) => {
            check(good, 1);
            check(s.count() == 0.0, 2);
            s.insert(&u64::MAX);
            let c = s.count();
            check(c >= 0.999 && c < 1.01, 6);
        }
        Err(e) => {
            check(!good, 3);
            check(e == HyperLogLogError::InvalidPrecision, 4);
        }
    }
    sym::reach(1);
}

// ---- C02 / C03: one insert into an arbitrary state
pub fn h_pf_step() {
    let p = params_p();
    let mut regs = some_regs(p, 32, 7);
    let mut s = pf_from(p, &regs);
    let h = sym::u64();
    s.insert(&h);
    let (i, r) = place(h, 32, p);
    upd(&mut regs, i, r);
    check(same(&val::ser(&s), &pf_state(p, &regs)), 1);
    note(1, i);
    note(2, r);
    sym::reach(1);
}
/// black box: two inserts into a fresh sketch
pub fn h_pf_fresh() {
    let p = params_p();
    let mut s = pf(p);
    let mut regs = zero_regs(p);
    let h = [sym::u64(), sym::u64()];
    for x in h.iter() {
        s.insert(x);
        let (i, r) = place(*x, 32, p);
        upd(&mut regs, i, r);
    }
    let got = pf_regs(&s, p);
    check(eq_regs(&got, &regs), 1);
    check(zeros_ok(&val::ser(&s), &regs), 2);
    sym::reach(1);
}
pub fn h_plus_step() {
    let p = params_p();
    let mut regs = some_regs(p, 64, 7);
    let mut s = pl_from(p, &regs);
    let h = sym::u64();
    s.insert(&h);
    let (i, r) = place(h, 64, p);
    upd(&mut regs, i, r);
    check(same(&val::ser(&s), &pl_state(p, &regs)), 1);
    note(1, i);
    note(2, r);
    sym::reach(1);
}

// ---- C04: n1 inserts, an estimate, n2 inserts, an estimate
pub fn h_sparse_set() {
    let p = params_p();
    let (n1, n2) = (param(1), param(2));
    let mut s = pl(p);
    let mut hs: Vec<u64> = Vec::new();
    for _ in 0..n1 { let h = sym::u64(); s.insert(&h); hs.push(h); }
    if n2 > 0 {
        if n1 > 0 {
            let c = s.count();
            let n = sym::conc(distinct(&hs, p));
            check(c == sparse_estimate(p, n), 1);
        }
        for _ in 0..n2 { let h = sym::u64(); s.insert(&h); hs.push(h); }
    }
    let c = s.count();
    let n = sym::conc(distinct(&hs, p));
    check(c == sparse_estimate(p, n), 2);
    // nothing was lost or added by the representation
    check(s.count() == c, 3);
    note(1, n);
    sym::reach(1);
}

// ---- C05
pub fn h_order_plus() {
    let p = params_p();
    let fill = param(1);
    let k = param(2) as usize;
    let mode = param(3);
    let mut h: Vec<u64> = Vec::new();
    for _ in 0..k { h.push(sym::u64()); }
    let mut a = pl(p);
    let mut b = pl(p);
    for i in 0..fill { a.insert(&filler(i)); }
    if mode & 1 == 0 { for i in (0..fill).rev() { b.insert(&filler(i)); } }
    for x in h.iter() { a.insert(x); }
    // the other sketch sees the values rotated, with a repetition
    for i in 0..k { b.insert(&h[(i + k - 1) % k]); if mode & 2 != 0 && i == 0 { b.insert(&h[k - 1]); b.count(); } }
    if mode & 1 == 1 { for i in (0..fill).rev() { b.insert(&filler(i)); } }
    let (ca, cb) = (a.count(), b.count());
    check(ca == cb, 1);
    let (va, vb) = (val::ser(&a), val::ser(&b));
    if is_dense(&va) && is_dense(&vb) {
        check(same(va.get("registers"), vb.get("registers")), 2);
        sym::reach(2);
    }
    sym::reach(1);
}
/// dense: two inserts commute and repetition is absorbed, from an arbitrary state
pub fn h_order_dense() {
    let p = params_p();
    let regs = some_regs(p, 64, 6);
    let mut a = pl_from(p, &regs);
    let mut b = pl_from(p, &regs);
    let (x, y) = (sym::u64(), sym::u64());
    a.insert(&x);
    a.insert(&y);
    b.insert(&y);
    b.insert(&x);
    b.insert(&y);
    check(same(&val::ser(&a), &val::ser(&b)), 1);
    sym::reach(1);
}
pub fn h_order_pf() {
    let p = params_p();
    let regs = some_regs(p, 32, 6);
    let mut a = pf_from(p, &regs);
    let mut b = pf_from(p, &regs);
    let (x, y) = (sym::u64(), sym::u64());
    a.insert(&x);
    a.insert(&y);
    b.insert(&y);
    b.insert(&x);
    b.insert(&y);
    check(same(&val::ser(&a), &val::ser(&b)), 1);
    sym::reach(1);
}

// ---- C06: a sparse sketch is made dense by a merge with an empty dense one
pub fn h_to_dense() {
    let p = params_p();
    let k = param(1);
    let flush = param(2);
    let mut s = pl(p);
    let mut hs = Vec::new();
    for i in 0..k { let h = sym::u64(); s.insert(&h); hs.push(h); if i + 1 == flush { s.count(); } }
    let empty = zero_regs(p);
    let e = pl2_from(p, &empty);
    let r = s.merge(&e);
    check(r.is_ok(), 1);
    let regs = regs_of(&hs, p);
    check(same(&val::ser(&s).get("registers"), &pl_state(p, &regs).get("registers")), 2);
    sym::reach(1);
}
/// the switch happens by itself: `fill` concrete codes, then k symbolic ones, until dense
pub fn h_switch() {
    let p = params_p();
    let (fill, k) = (param(1), param(2));
    let mut s = pl(p);
    let mut hs = Vec::new();
    for i in 0..fill { let h = (i * 3 + 1) << 60 | 1 << 40 | i; s.insert(&h); hs.push(h); }
    for _ in 0..k { let h = sym::u64(); s.insert(&h); hs.push(h); }
    s.count();
    let v = val::ser(&s);
    if is_dense(&v) {
        let regs = regs_of(&hs, p);
        check(same(v.get("registers"), &pl_state(p, &regs).get("registers")), 1);
        sym::reach(2);
    } else {
        let n = sym::conc(distinct(&hs, p));
        check(s.count() == sparse_estimate(14, n), 2);
        sym::reach(3);
    }
    sym::reach(1);
}

// ---- C07: store codes, read them back through a merge into an empty sketch
pub fn h_store() {
    let p = params_p();
    let (n1, n2) = (param(1), param(2));
    let mut s = pl(p);
    let mut all: Vec<u64> = Vec::new();
    for _ in 0..n1 { let h = sym::u64(); s.insert(&h); }
    for x in val::ser(&s).get("tmpset").nums() { all.push(*x); }
    s.count();
    if n2 > 0 {
        for _ in 0..n2 { let h = sym::u64(); s.insert(&h); }
        for x in val::ser(&s).get("tmpset").nums() { all.push(*x); }
        s.count();
    }
    let v = val::ser(&s);
    check(v.get("tmpset").nums().len() == 0, 1);
    let got = match read_back(p, &s) { Some(g) => g, None => return };
    // same set, and no code twice
    for x in all.iter() {
        let mut found = false;
        for y in got.iter() { found |= x == y; }
        check(found, 2);
    }
    for (i, y) in got.iter().enumerate() {
        let mut known = false;
        for x in all.iter() { known |= x == y; }
        check(known, 3);
        for z in got.iter().take(i) { check(z < y, 4); }
    }
    check(v.get("sparse").get("count").num() == got.len() as u64, 5);
    sym::reach(1);
}
/// the codes stored in `s`, read by merging it into an empty sketch; if that sketch flushes them at once, it must have
/// stored the same (None)
pub fn read_back(p: u8, s: &Pl) -> Option<Vec<u64>> {
    let mut t = pl2(p);
    check(t.merge(s).is_ok(), 90);
    let back = val::ser(&t);
    let got = back.get("tmpset").nums();
    if got.is_empty() && back.get("sparse").get("count").num() > 0 {
        check(same(back.get("sparse"), val::ser(s).get("sparse")), 91);
        sym::reach(1);
        return None;
    }
    Some(got.to_vec())
}
/// arbitrary 32-bit codes put directly into the buffer
pub fn h_store_raw() {
    let p = params_p();
    let n = param(1);
    let mut v = val::ser(&pl(p));
    let mut codes: Vec<u64> = Vec::new();
    for i in 0..n {
        let c = sym::u32() as u64;
        for x in codes.iter() { sym::assume(*x != c); }
        let _ = i;
        codes.push(c);
    }
    *v.get_mut("tmpset") = Val::Nums(codes.clone());
    let mut s: Pl = val::de(&v);
    s.count();
    let got = match read_back(p, &s) { Some(g) => g, None => return };
    check(got.len() == codes.len(), 2);
    for i in 0..got.len() {
        let mut known = false;
        for x in codes.iter() { known |= *x == got[i]; }
        check(known, 3);
        if i > 0 { check(got[i - 1] < got[i], 4); }
    }
    sym::reach(1);
}

// ---- C08
pub fn h_merge_pf() {
    let p = params_p();
    let full = param(1) as u8;
    let ra = some_regs(p, 32, full);
    let rb = some_regs(p, 32, full);
    let mut a = pf_from(p, &ra);
    let b: Pf2 = val::de(&pf_state(p, &rb));
    check(a.merge(&b).is_ok(), 1);
    let want = max_regs(&ra, &rb);
    check(same(&val::ser(&a), &pf_state(p, &want)), 2);
    check(same(&val::ser(&b), &pf_state(p, &rb)), 3);
    sym::reach(1);
}
/// black box: sketches of two streams merged, against one sketch of both, now and after another insert
pub fn h_merge_pf_stream() {
    let p = params_p();
    let (mut a, mut b, mut c) = (pf(p), pf(p), pf(p));
    let h = [sym::u64(), sym::u64(), sym::u64(), sym::u64()];
    a.insert(&h[0]);
    a.insert(&h[1]);
    b.insert(&h[2]);
    for x in &h[..3] { c.insert(x); }
    check(a.merge(&b).is_ok(), 1);
    check(same(&val::ser(&a), &val::ser(&c)), 2);
    a.insert(&h[3]);
    c.insert(&h[3]);
    check(same(&val::ser(&a), &val::ser(&c)), 3);
    sym::reach(1);
}

// ---- C09
/// sparse/dense pairing chosen by param 1: bit 0 = self dense, bit 1 = other dense; params 2, 3: hashes in each;
/// param 4: bit 0/1 = self/other flushed first, bit 2 = merge twice
pub fn h_merge_plus() {
    let p = params_p();
    let (pair, na, nb, fl) = (param(1), param(2), param(3), param(4));
    let zero = zero_regs(p);
    let full = if p <= 5 { arb_regs(p, 64) } else { Regs { v: vec![], z: 0 } };
    let (sd, od) = (pair & 1 == 1, pair & 2 == 2);
    let mut base_a = zero.clone();
    let mut base_b = zero.clone();
    if sd && !full.is_empty() { base_a = full.clone(); } else if od && !full.is_empty() { base_b = full.clone(); }
    let mut a = if sd { pl_from(p, &base_a) } else { pl(p) };
    let mut b = if od { pl2_from(p, &base_b) } else { pl2(p) };
    let mut hs = Vec::new();
    for _ in 0..na { let h = sym::u64(); a.insert(&h); hs.push(h); }
    for _ in 0..nb { let h = sym::u64(); b.insert_any(&h); hs.push(h); }
    if fl & 1 == 1 { a.count(); }
    if fl & 2 == 2 { b.count(); }
    let before = val::ser(&b);
    check(a.merge(&b).is_ok(), 1);
    check(same(&val::ser(&b), &before), 2);
    if fl & 4 == 4 { check(a.merge(&b).is_ok(), 1); }
    verify_union(p, &mut a, &hs, &base_a, &base_b, sd || od);
    // and one more insert
    if fl & 8 == 8 {
        let h = sym::u64();
        a.insert(&h);
        hs.push(h);
        verify_union(p, &mut a, &hs, &base_a, &base_b, sd || od);
    }
    sym::reach(1);
}
fn verify_union(p: u8, a: &mut Pl, hs: &[u64], base_a: &Regs, base_b: &Regs, dense: bool) {
    let mut v = val::ser(a);
    let mut c = 0.0;
    if !is_dense(&v) { c = a.count(); v = val::ser(a); }
    if is_dense(&v) {
        let mut regs = max_regs(base_a, base_b);
        for x in hs { let (i, r) = place(*x, 64, p); upd(&mut regs, i, r); }
        check(same(v.get("registers"), &pl_state(p, &regs).get("registers")), 3);
        sym::reach(2);
    } else {
        check(!dense, 4);
        let n = sym::conc(distinct(hs, p));
        check(c == sparse_estimate(14, n), 5);
        sym::reach(3);
    }
}

// ---- C10
pub fn h_mismatch_pf() {
    let p = params_p();
    let q = sym::conc(sym::upto(12)) as u8 + 4;
    let (mut a, mut b) = (pf(p), pf2(q));
    let easy = p == q && p > 6;
    let (x, y) = (if easy { 0x1234_5678_9abc_def0 } else { sym::u64() }, if easy { 0x2000_1111_7777_0123 } else { sym::u64() });
    a.insert(&x);
    b.insert_any(&y);
    let (va, vb) = (val::ser(&a), val::ser(&b));
    match a.merge(&b) {
        Ok(()) => check(p == q, 1),
        Err(e) => {
            check(p != q, 2);
            check(e == HyperLogLogError::IncompatiblePrecision, 3);
            check(same(&va, &val::ser(&a)), 4);
        }
    }
    check(same(&vb, &val::ser(&b)), 5);
    sym::reach(1);
}
/// params: p, mode (bit 0 self dense, bit 1 other dense)
pub fn h_mismatch_plus() {
    let p = params_p();
    let mode = param(1);
    let q = sym::conc(sym::upto(14)) as u8 + 4;
    let easy = mode > 0 && p == q && p > 6;
    let mut a = if mode & 1 == 1 { pl_from(p, &zero_regs(p)) } else { pl(p) };
    let mut b = if mode & 2 == 2 { pl2_from(q, &zero_regs(q)) } else { pl2(q) };
    let (x, y) = (if easy { 0x1234_5678_9abc_def0 } else { sym::u64() }, if easy { 0x2000_1111_7777_0123 } else { sym::u64() });
    a.insert(&x);
    b.insert_any(&y);
    let (va, vb) = (val::ser(&a), val::ser(&b));
    match a.merge(&b) {
        Ok(()) => check(p == q, 1),
        Err(e) => {
            check(p != q, 2);
            check(e == HyperLogLogError::IncompatiblePrecision, 3);
            check(same(&va, &val::ser(&a)), 4);
        }
    }
    check(same(&vb, &val::ser(&b)), 5);
    sym::reach(1);
}

// ---- C15
/// count() at any of the points (param 2 is the mask) changes nothing
pub fn h_pure_plus() {
    let p = params_p();
    let (n, mask) = (param(1), param(2));
    let (mut a, mut b) = (pl(p), pl(p));
    for i in 0..n {
        let h = sym::u64();
        a.insert(&h);
        b.insert(&h);
        if mask >> i & 1 == 1 { let c = a.count(); check(a.count() == c, 1); }
    }
    let (ca, cb) = (a.count(), b.count());
    check(ca == cb, 2);
    check(a.count() == ca, 3);
    let (va, vb) = (val::ser(&a), val::ser(&b));
    check(is_dense(&va) == is_dense(&vb), 4);
    if is_dense(&va) { check(same(va.get("registers"), vb.get("registers")), 5); sym::reach(2); }
    // both behave alike in a later merge
    let mut t = pl2(p);
    let mut u = pl2(p);
    check(t.merge(&a).is_ok() && u.merge(&b).is_ok(), 6);
    check(t.count() == u.count(), 7);
    sym::reach(1);
}
pub fn h_pure_dense() {
    let p = params_p();
    let regs = some_regs(p, 64, 5);
    let mut a = pl_from(p, &regs);
    let before = val::ser(&a);
    let c = a.count();
    check(same(&before, &val::ser(&a)), 1);
    check(a.count() == c, 2);
    sym::reach(1);
}
pub fn h_pure_pf() {
    let p = params_p();
    let regs = some_regs(p, 32, 5);
    let mut a = pf_from(p, &regs);
    let before = val::ser(&a);
    let c = a.count();
    check(same(&before, &val::ser(&a)), 1);
    check(a.count() == c, 2);
    sym::reach(1);
}

// ---- C16
fn vlen(g: u64) -> u64 { 1 + (g >= 1 << 7) as u64 + (g >= 1 << 14) as u64 + (g >= 1 << 21) as u64 + (g >= 1 << 28) as u64 }
/// size of the difference encoding of the distinct codes of hs
fn coded_size(hs: &[u64], p: u8) -> u64 {
    // each distinct code contributes the length of its gap to the greatest smaller one
    let mut total = 0u64;
    for i in 0..hs.len() {
        let c = code32(hs[i], p);
        let mut dup = false;
        let mut prev = 0u64;
        for j in 0..hs.len() {
            let d = code32(hs[j], p);
            if j < i { dup |= d == c; }
            prev = if (d < c) & (d > prev) { d } else { prev };
        }
        total += if dup { 0 } else { vlen(c - prev) };
    }
    total
}
pub fn h_budget() {
    let p = params_p();
    let (fill, k, last_count) = (param(1), param(2), param(3));
    let budget = 4 * m_of(p) as u64 / 5;
    let mut s = pl(p);
    let mut hs = Vec::new();
    let mut dense = false;
    let n = fill + k;
    for i in 0..n + last_count {
        let h;
        if i < n {
            h = if i < fill { (i * 2 + 3) << 59 | 1 << 40 } else { sym::u64() };
            s.insert(&h);
            hs.push(h);
        } else { s.count(); }
        let v = val::ser(&s);
        let d = is_dense(&v);
        check(d || !dense, 1);
        if !d {
            check(byte_len(v.get("sparse")) <= budget, 2);
            check(v.get("tmpset").nums().len() as u64 * 100 <= budget, 3);
        } else if !dense {
            // the switch is not early: the codes really exceed the budget
            check(coded_size(&hs, p) > budget, 4);
            check(v.get("registers").get("buf").nums().len() == (m_of(p) + 4) / 5, 5);
            check(v.get("tmpset").nums().len() == 0 && byte_len(v.get("sparse")) == 0, 6);
            sym::reach(2);
        }
        if i >= n && !d { check(coded_size(&hs, p) <= budget, 7); sym::reach(3); }
        dense = d;
    }
    sym::reach(1);
}
fn byte_len(sp: &Val) -> u64 { sp.get("buf").nums().len() as u64 }
/// the flush trigger at larger p: `fill` concrete codes and one symbolic
pub fn h_flush_point() {
    let p = params_p();
    let budget = 4 * m_of(p) as u64 / 5;
    let mut s = pl(p);
    let fill = budget / 100;
    for i in 0..fill { s.insert(&filler(i * 5)); }
    check(val::ser(&s).get("tmpset").nums().len() as u64 == fill, 1);
    let h = sym::u64();
    s.insert(&h);
    let v = val::ser(&s);
    let len = v.get("tmpset").nums().len() as u64;
    check(len * 100 <= budget, 2);
    let c = s.count();
    let mut dup = false;
    for i in 0..fill { dup |= sparse_key(h, p) == sparse_key(filler(i * 5), p); }
    let n = sym::conc(fill + !dup as u64);
    check(c == sparse_estimate(18, n), 3);
    sym::reach(1);
}
pub fn h_dense_size() {
    let p = params_p();
    let kind = param(1);
    if kind == 0 {
        let v = val::ser(&pf(p));
        check(v.get("registers").get("buf").nums().len() == (m_of(p) + 5) / 6, 1);
    } else {
        let mut s = pl(p);
        let h = sym::u64();
        s.insert(&h);
        check(s.merge(&pl2_from(p, &zero_regs(p))).is_ok(), 2);
        let v = val::ser(&s);
        check(v.get("registers").get("buf").nums().len() == (m_of(p) + 4) / 5, 3);
        // stays dense
        s.insert(&h);
        s.count();
        check(s.merge(&pl2(p)).is_ok(), 4);
        check(is_dense(&val::ser(&s)), 5);
    }
    sym::reach(1);
}

// ---- C17
fn hows(i: u64) -> val::How { match i { 0 => val::How::Map, 1 => val::How::Reversed, _ => val::How::Seq } }
fn alike(a: &mut Pl, b: &mut Pl) {
    // same now, after another insert, and in a merge
    let h = sym::u64();
    let mut ta = pl2(14);
    let p = val::ser(a).get("precision").num() as u8;
    if p != 14 { ta = pl2(p); }
    let mut tb = pl2(p);
    ta.merge(a).ok();
    tb.merge(b).ok();
    check(ta.count() == tb.count(), 20);
    check(a.count() == b.count(), 21);
    a.insert(&h);
    b.insert(&h);
    let (va, vb) = (val::ser(a), val::ser(b));
    check(is_dense(&va) == is_dense(&vb), 22);
    check(a.count() == b.count(), 23);
    if is_dense(&va) { check(same(&val::ser(a), &val::ser(b)), 24); sym::reach(2); }
}
pub fn h_serde_plus() {
    let p = params_p();
    let (n1, n2, how) = (param(1), param(2), param(3));
    let mut a = pl(p);
    for _ in 0..n1 { let h = sym::u64(); a.insert(&h); }
    if n1 > 0 && n2 > 0 { a.count(); }
    for _ in 0..n2 { let h = sym::u64(); a.insert(&h); }
    let v = val::ser(&a);
    match val::try_de::<Pl>(&v, hows(how)) {
        Some(mut b) => {
            check(same(&v, &val::ser(&b)), 1);
            alike(&mut a, &mut b);
        }
        None => check(false, 2),
    }
    sym::reach(1);
}
pub fn h_serde_dense() {
    let p = params_p();
    let regs = some_regs(p, 64, 5);
    let mut a = pl_from(p, &regs);
    let h0 = sym::u64();
    a.insert(&h0);
    let v = val::ser(&a);
    match val::try_de::<Pl>(&v, hows(param(1))) {
        Some(mut b) => {
            check(same(&v, &val::ser(&b)), 1);
            let h = sym::u64();
            a.insert(&h);
            b.insert(&h);
            check(same(&val::ser(&a), &val::ser(&b)), 2);
        }
        None => check(false, 3),
    }
    sym::reach(1);
}
pub fn h_serde_pf() {
    let p = params_p();
    let regs = some_regs(p, 32, 5);
    let mut a = pf_from(p, &regs);
    let h0 = sym::u64();
    a.insert(&h0);
    let v = val::ser(&a);
    match val::try_de::<Pf>(&v, hows(param(1))) {
        Some(mut b) => {
            check(same(&v, &val::ser(&b)), 1);
            let h = sym::u64();
            a.insert(&h);
            b.insert(&h);
            check(same(&val::ser(&a), &val::ser(&b)), 2);
            let mut c = pf(p);
            check(c.merge(&b).is_ok(), 4);
            check(same(&val::ser(&a), &val::ser(&c)), 5);
        }
        None => check(false, 3),
    }
    sym::reach(1);
}

// ---- C22
pub fn h_clone_plus() {
    let p = params_p();
    let (n, who) = (param(1), param(2));
    let mut a = pl(p);
    for _ in 0..n { let h = sym::u64(); a.insert(&h); }
    if who & 2 == 2 { a.count(); }
    let mut b = a.clone();
    let v = val::ser(&a);
    check(same(&v, &val::ser(&b)), 1);
    let h = sym::u64();
    let mut o = pl2(p);
    o.insert_any(&sym::u64());
    // change one of them; the other must not move
    let (x, y) = if who & 1 == 0 { (&mut a, &mut b) } else { (&mut b, &mut a) };
    x.insert(&h);
    x.count();
    check(x.merge(&o).is_ok(), 2);
    check(same(&v, &val::ser(y)), 3);
    // and the other one behaves as if it had never been cloned
    y.insert(&h);
    check(y.merge(&o).is_ok(), 4);
    check(x.count() == y.count(), 5);
    sym::reach(1);
}
pub fn h_clone_dense() {
    let p = params_p();
    let who = param(1);
    let regs = some_regs(p, 64, 5);
    let mut a = pl_from(p, &regs);
    let mut b = a.clone();
    let v = val::ser(&a);
    check(same(&v, &val::ser(&b)), 1);
    let h = sym::u64();
    let (x, y) = if who == 0 { (&mut a, &mut b) } else { (&mut b, &mut a) };
    x.insert(&h);
    check(same(&v, &val::ser(y)), 2);
    y.insert(&h);
    check(same(&val::ser(x), &val::ser(y)), 3);
    sym::reach(1);
}
pub fn h_clone_pf() {
    let p = params_p();
    let who = param(1);
    let regs = some_regs(p, 32, 5);
    let mut a = pf_from(p, &regs);
    let mut b = a.clone();
    let v = val::ser(&a);
    check(same(&v, &val::ser(&b)), 1);
    let h = sym::u64();
    let (x, y) = if who == 0 { (&mut a, &mut b) } else { (&mut b, &mut a) };
    x.insert(&h);
    let mut o = pf2(p);
    o.insert_any(&sym::u64());
    check(x.merge(&o).is_ok(), 4);
    check(same(&v, &val::ser(y)), 2);
    y.insert(&h);
    check(y.merge(&o).is_ok(), 5);
    check(same(&val::ser(x), &val::ser(y)), 3);
    sym::reach(1);
}
