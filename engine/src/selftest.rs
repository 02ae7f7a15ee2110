//! Random differential test of the term simplifier: every term is built through the simplifying constructors
//! next to an independently computed concrete value; `eval`, ranges and intervals must agree with it.
use crate::term::*;


struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; self.0 }
    fn below(&mut self, n: u64) -> u64 { self.next() % n }
    fn word(&mut self, w: u32) -> u128 {
        let r = (self.next() as u128) << 64 | self.next() as u128;
        let v = match self.below(6) { 0 => self.below(4) as u128, 1 => mask(w), 2 => 1u128 << self.below(w as u64), 3 => r & (self.below(256) as u128), _ => r };
        v & mask(w)
    }
}

pub fn run(iters: u64, seed: u64) -> Result<u64, String> {
    let mut rng = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) | 1);
    let mut checked = 0u64;
    for it in 0..iters {
        let mut tm = Terms::new();
        let widths = [1u32, 5, 6, 8, 16, 32, 32, 64, 64, 128];
        let mut models: Vec<Model> = vec![HashMap::default(); 4];
        let mut pool: Vec<(T, Vec<u128>)> = vec![];
        for i in 0..6 {
            let w = [1, 8, 32, 32, 64, 64][i];
            let t = tm.var(&format!("v{}", i), w);
            let vi = tm.n(t).k as u32;
            let mut vals = vec![];
            for m in models.iter_mut() { let v = rng.word(w); m.insert(vi, v); vals.push(v); }
            pool.push((t, vals));
        }
        let mut fpool: Vec<(T, Vec<f64>)> = vec![];
        for step in 0..60 {
            let w = widths[rng.below(widths.len() as u64) as usize];
            let pick = |rng: &mut Rng, tm: &mut Terms, pool: &Vec<(T, Vec<u128>)>, w: u32| -> (T, Vec<u128>) {
                if rng.below(4) == 0 { let v = rng.word(w); return (tm.c(v, w), vec![v; 4]); }
                let c: Vec<_> = pool.iter().filter(|x| tm.w(x.0) == w).collect();
                if !c.is_empty() && rng.below(8) != 0 { return c[rng.below(c.len() as u64) as usize].clone(); }
                let p = pool[rng.below(pool.len() as u64) as usize].clone();
                let t = tm.resize(p.0, w);
                (t, p.1.iter().map(|v| v & mask(w)).collect())
            };
            let (a, av) = pick(&mut rng, &mut tm, &pool, w);
            let (b, bv) = pick(&mut rng, &mut tm, &pool, w);
            let op = rng.below(33);
            let z2 = |f: &dyn Fn(u128, u128) -> u128| -> Vec<u128> { av.iter().zip(&bv).map(|(x, y)| f(*x, *y)).collect() };
            let m = mask(w);
            let sh = if rng.below(2) == 0 { let k = rng.below(w as u64 + 2) as u128 & m; Some(k) } else { None };
            let (s, sv) = match sh { Some(k) => (tm.c(k, w), vec![k; 4]), None => (b, bv.clone()) };
            let shf = |f: &dyn Fn(u128, u128) -> u128| -> Vec<u128> { av.iter().zip(&sv).map(|(x, y)| f(*x, *y)).collect() };
            let (t, v): (T, Vec<u128>) = match op {
                0 | 1 => (tm.add(a, b), z2(&|x, y| x.wrapping_add(y) & m)),
                2 => (tm.sub(a, b), z2(&|x, y| x.wrapping_sub(y) & m)),
                3 => (tm.mul(a, b), z2(&|x, y| x.wrapping_mul(y) & m)),
                4 => (tm.udiv(a, b), z2(&|x, y| if y == 0 { m } else { x / y })),
                5 => (tm.urem(a, b), z2(&|x, y| if y == 0 { x } else { x % y })),
                6 | 7 => (tm.and(a, b), z2(&|x, y| x & y)),
                8 | 9 => (tm.or(a, b), z2(&|x, y| x | y)),
                10 => (tm.xor(a, b), z2(&|x, y| x ^ y)),
                11 => (tm.not(a), av.iter().map(|x| !x & m).collect()),
                12 => (tm.neg(a), av.iter().map(|x| x.wrapping_neg() & m).collect()),
                13 | 14 => (tm.shl(a, s), shf(&|x, y| if y >= w as u128 { 0 } else { (x << y) & m })),
                15 | 16 => (tm.lshr(a, s), shf(&|x, y| if y >= w as u128 { 0 } else { x >> y })),
                17 => (tm.ashr(a, s), shf(&|x, y| (sx(x, w) >> y.min(w as u128 - 1)) as u128 & m)),
                18 => (tm.eq(a, b), z2(&|x, y| (x == y) as u128)),
                19 | 20 => (tm.ult(a, b), z2(&|x, y| (x < y) as u128)),
                21 => (tm.slt(a, b), z2(&|x, y| (sx(x, w) < sx(y, w)) as u128)),
                22 | 23 => { let (c, cv) = pick(&mut rng, &mut tm, &pool, 1); (tm.ite(c, a, b), cv.iter().zip(av.iter().zip(&bv)).map(|(c, (x, y))| if *c == 1 { *x } else { *y }).collect()) }
                24 | 25 => { let lo = rng.below(w as u64) as u32; let hi = lo + rng.below((w - lo) as u64) as u32; (tm.extract(a, hi, lo), av.iter().map(|x| (x >> lo) & mask(hi - lo + 1)).collect()) }
                26 if w <= 64 => (tm.concat(a, b), z2(&|x, y| x << w | y)),
                27 if w < 128 => (tm.zext(a, 128.min(w * 2)), av.clone()),
                28 if w <= 64 => (tm.sext(a, w * 2), av.iter().map(|x| sx(*x, w) as u128 & mask(w * 2)).collect()),
                29 => (tm.clz(a), av.iter().map(|x| (x.leading_zeros() - (128 - w)) as u128 & m).collect()),
                30 => (tm.pop(a), av.iter().map(|x| x.count_ones() as u128 & m).collect()),
                31 => {
                    // 7-bit groups in bytes and back, of a narrow range
                    let (x, xv) = pick(&mut rng, &mut tm, &pool, 32);
                    let nb = 1 + rng.below(12) as u32;
                    let k = rng.word(32);
                    let (kt, nm) = (tm.c(k, 32), tm.c(mask(nb), 32));
                    let y = tm.and(x, nm);
                    let y = if rng.below(3) == 0 { x } else if rng.below(2) == 0 { tm.add(y, kt) } else { tm.sub(kt, y) };
                    let groups = 1 + rng.below(5) as u32;
                    let mut val = tm.c(0, 32);
                    for g in 0..groups {
                        let sh = tm.c(7 * g as u128, 32);
                        let s = tm.lshr(y, sh);
                        let low = tm.c(127, 32);
                        let s = tm.and(s, low);
                        let s = tm.trunc(s, 8);
                        let top = tm.c(128, 8);
                        let s = tm.or(s, top);
                        let s = tm.zext(s, 32);
                        let s = tm.and(s, low);
                        let s = tm.shl(s, sh);
                        val = tm.or(val, s);
                    }
                    let v = models.iter().map(|mo| tm.eval(y, mo, &mut HashMap::default()) & mask((7 * groups).min(32))).collect();
                    let _ = xv;
                    (val, v)
                }
                32 => {
                    // sums with terms of both signs
                    let mut acc = tm.c(0, w);
                    let mut v = vec![0u128; 4];
                    let mut used: Vec<(T, Vec<u128>)> = vec![];
                    for _ in 0..2 + rng.below(6) {
                        let (x, xv) = if !used.is_empty() && rng.below(2) == 0 { used[rng.below(used.len() as u64) as usize].clone() } else { pick(&mut rng, &mut tm, &pool, w) };
                        if rng.below(2) == 0 { acc = tm.add(acc, x); for i in 0..4 { v[i] = v[i].wrapping_add(xv[i]) & m; } }
                        else { acc = tm.sub(acc, x); for i in 0..4 { v[i] = v[i].wrapping_sub(xv[i]) & m; } }
                        used.push((x, xv));
                        used.push((acc, v.clone()));
                    }
                    (acc, v)
                }
                _ => (a, av.clone()),
            };
            if op == 29 && w < 8 || op == 30 && w < 8 { continue; }
            for (i, mo) in models.iter().enumerate() {
                let got = tm.eval(t, mo, &mut HashMap::default());
                let r = tm.rng(t);
                if got != v[i] || v[i] < r.0 || v[i] > r.1 {
                    return Err(format!("iter {} step {} op {} w {}: term {:?} eval {} expected {} range {:?}; a {:?}={} b {:?}={}", it, step, op, w, tm.n(t), got, v[i], r, tm.n(a), av[i], tm.n(b), bv[i]));
                }
                checked += 1;
            }
            pool.push((t, v));
            // doubles
            if rng.below(3) == 0 {
                let (i, iv) = pick(&mut rng, &mut tm, &pool, 32);
                let (t, v): (T, Vec<f64>) = match rng.below(9) {
                    0 | 1 => (tm.ffromu(i), iv.iter().map(|x| *x as f64).collect()),
                    2 => (tm.ffroms(i), iv.iter().map(|x| *x as u32 as i32 as f64).collect()),
                    3 => { let k = tm.extract(i, 5, 0); let p = tm.pow2tab; (tm.ftab(k, p), iv.iter().map(|x| 1.0 / (1u64 << (x & 63)) as f64).collect()) }
                    k if fpool.len() > 1 => {
                        let (x, xv) = fpool[rng.below(fpool.len() as u64) as usize].clone();
                        let (y, yv) = fpool[rng.below(fpool.len() as u64) as usize].clone();
                        let f = |g: &dyn Fn(f64, f64) -> f64| -> Vec<f64> { xv.iter().zip(&yv).map(|(p, q)| g(*p, *q)).collect() };
                        match k { 4 => (tm.fadd(x, y), f(&|p, q| p + q)), 5 => (tm.fsub(x, y), f(&|p, q| p - q)), 6 => (tm.fmul(x, y), f(&|p, q| p * q)),
                            7 => { if yv.iter().any(|q| *q == 0.0) { continue; } (tm.fdiv(x, y), f(&|p, q| p / q)) }
                            _ => { let (c, cv) = pick(&mut rng, &mut tm, &pool, 1); (tm.fite(c, x, y), cv.iter().zip(xv.iter().zip(&yv)).map(|(c, (p, q))| if *c == 1 { *p } else { *q }).collect()) } }
                    }
                    _ => (tm.ffromu(i), iv.iter().map(|x| *x as f64).collect()),
                };
                if v.iter().any(|x| !x.is_finite() || x.abs() > 1e60) { continue; }
                for (k, mo) in models.iter().enumerate() {
                    let got = f64::from_bits(tm.eval(t, mo, &mut HashMap::default()) as u64);
                    let fi = tm.fint[t as usize];
                    if got != v[k] || v[k] < fi.0 || v[k] > fi.1 { return Err(format!("iter {} double {:?} eval {} expected {} interval {:?}", it, tm.n(t), got, v[k], fi)); }
                    checked += 1;
                }
                fpool.push((t, v.clone()));
                if fpool.len() > 1 {
                    let (y, yv) = fpool[rng.below(fpool.len() as u64) as usize].clone();
                    for op in [Op::FEq, Op::FLt, Op::FLe] {
                        let c = tm.fcmp(op, t, y);
                        for (k, mo) in models.iter().enumerate() {
                            let e = match op { Op::FEq => v[k] == yv[k], Op::FLt => v[k] < yv[k], _ => v[k] <= yv[k] };
                            if tm.eval(c, mo, &mut HashMap::default()) != e as u128 { return Err(format!("iter {} fcmp {:?} {} {}", it, op, v[k], yv[k])); }
                            checked += 1;
                        }
                    }
                }
            }
        }
    }
    Ok(checked)
}
