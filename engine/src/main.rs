mod exec;
mod ir;
mod mem;
mod selftest;
mod smt;
mod term;
use std::fmt::Write as _;

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); } c => o.push(c) } }
    o.push('"');
    o
}

fn main() {
    // deep recursion in the simplifier
    let h = std::thread::Builder::new().stack_size(1 << 30).spawn(real_main).unwrap();
    let code = h.join().unwrap_or(3);
    std::process::exit(code);
}

fn real_main() -> i32 {
    let args: Vec<String> = std::env::args().collect();
    let mut file = String::new();
    let mut func = String::new();
    let mut cfg = exec::Cfg { params: vec![], max_paths: 200_000, max_secs: 600.0, max_steps: 2_000_000_000, fork_uitofp: 0, merge: true, small: 300, stop_first: false, want_paths: 3, verbose: false, max_viol: 3 };
    let mut out: Option<String> = None;
    let mut solver = "z3-new".to_string();
    let mut timeout = 20_000u64;
    let mut dump = None;
    let mut i = 1;
    while i < args.len() {
        let a = args[i].clone();
        let mut val = || { i += 1; args[i].clone() };
        match a.as_str() {
            "--fn" => func = val(),
            "--param" => { let v = val(); cfg.params.extend(v.split(',').filter(|x| !x.is_empty()).map(|x| x.parse::<u64>().unwrap())); }
            "--out" => out = Some(val()),
            "--solver" => solver = val(),
            "--timeout-ms" => timeout = val().parse().unwrap(),
            "--max-paths" => cfg.max_paths = val().parse().unwrap(),
            "--max-secs" => cfg.max_secs = val().parse().unwrap(),
            "--fork-uitofp" => cfg.fork_uitofp = val().parse().unwrap(),
            "--no-merge" => cfg.merge = false,
            "--small" => cfg.small = val().parse().unwrap(),
            "--stop-first" => cfg.stop_first = true,
            "--paths" => cfg.want_paths = val().parse().unwrap(),
            "--max-viol" => cfg.max_viol = val().parse().unwrap(),
            "--dump" => dump = Some(val()),
            "-v" => cfg.verbose = true,
            _ => file = a,
        }
        i += 1;
    }
    if file == "selftest" { return match selftest::run(func.parse().unwrap_or(2000), timeout) { Ok(n) => { println!("selftest ok: {} comparisons", n); 0 } Err(e) => { println!("selftest FAILED: {}", e); 1 } }; }
    let text = match std::fs::read_to_string(&file) { Ok(t) => t, Err(e) => { eprintln!("{}: {}", file, e); return 3; } };
    let m = ir::Module::load(text);
    if func == "--parse-all" || func.is_empty() {
        let names: Vec<_> = m.fbody.keys().cloned().collect();
        for n in &names { m.func(n); }
        for g in &m.globals { let _ = m.global_init(g); }
        println!("parsed {} functions, {} globals", names.len(), m.globals.len());
        return 0;
    }
    let verbose = cfg.verbose;
    let mut smt = smt::Smt::new(&solver, timeout);
    smt.dump = dump;
    let mut mc = exec::Mach::new(m, cfg, smt);
    mc.run_harness(&func);
    let el = mc.start.elapsed().as_secs_f64();
    let mut o = String::new();
    let _ = write!(o, "{{\"fn\":{},\"params\":{:?},\"paths\":{},\"panics\":{},\"infeasible\":{},\"asserts\":{},\"discharged\":{},\"trivial\":{},\"forks\":{},\"merges\":{},\"steps\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"fallback\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"model_hits\":{},\"cache_hits\":{},\"terms\":{},\"wall_s\":{:.3}",
        jstr(&func), mc.cfg.params, mc.n_paths, mc.n_panics, mc.n_infeasible, mc.n_asserts, mc.n_discharged, mc.n_trivial, mc.n_forks, mc.n_merges, mc.n_steps, mc.smt.queries, mc.smt.n_sat, mc.smt.n_unsat, mc.smt.n_unknown, mc.smt.fallback, mc.smt.time, mc.smt.max_time, mc.model_hits, mc.cache_hits, mc.tm.nodes.len(), el);
    let _ = write!(o, ",\"reach\":{{{}}}", mc.reach.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(","));
    let _ = write!(o, ",\"assert_ids\":{{{}}}", mc.assert_ids.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(","));
    let mut fr: Vec<String> = mc.funcs_run.keys().map(|k| jstr(&exec::short(k))).collect();
    fr.sort();
    fr.dedup();
    let _ = write!(o, ",\"functions\":[{}]", fr.join(","));
    let mut us = mc.unsup.clone();
    us.sort();
    us.dedup();
    let _ = write!(o, ",\"unsupported\":[{}]", us.iter().take(10).map(|s| jstr(s)).collect::<Vec<_>>().join(","));
    let mut ur = mc.unresolved.clone();
    ur.sort();
    ur.dedup();
    let _ = write!(o, ",\"unresolved\":[{}]", ur.iter().take(10).map(|s| jstr(s)).collect::<Vec<_>>().join(","));
    let vals = |v: &Vec<(u32, u128)>| v.iter().map(|(w, k)| format!("[{},\"{}\"]", w, k)).collect::<Vec<_>>().join(",");
    let _ = write!(o, ",\"violations\":[{}]", mc.viol.iter().map(|v| format!("{{\"kind\":{},\"id\":{},\"where\":{},\"values\":[{}]}}", jstr(&v.kind), v.id, jstr(&v.func), vals(v.model.as_ref().unwrap()))).collect::<Vec<_>>().join(","));
    let _ = write!(o, ",\"candidates\":[{}]", mc.candidates.iter().map(|v| format!("{{\"kind\":{},\"id\":{},\"where\":{},\"values\":[{}]}}", jstr(&v.kind), v.id, jstr(&v.func), vals(v.model.as_ref().unwrap()))).collect::<Vec<_>>().join(","));
    let _ = write!(o, ",\"path_models\":[{}]}}", mc.paths.iter().map(|p| format!("{{\"kind\":{},\"values\":[{}],\"notes\":[{}]}}", jstr(&p.kind), vals(&p.vals), vals(&p.notes))).collect::<Vec<_>>().join(","));
    if verbose {
        let mut fs: Vec<_> = mc.fork_sites.iter().collect();
        fs.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for ((n, b), c) in fs.iter().take(12) { eprintln!("forks {} at {} block {}", c, exec::short(n), b); }
    }
    match out { Some(f) => { let _ = std::fs::write(f, o); } None => println!("{}", o) }
    0
}
