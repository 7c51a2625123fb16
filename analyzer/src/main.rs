mod bdd;
mod check;
mod effects;
mod interp;
mod ll;
mod spec;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(|x| x == "check").unwrap_or(false) {
        if std::env::var("VF_TRACE").is_err() { std::panic::set_hook(Box::new(|_| {})); }
        std::process::exit(check::main(&a[2..]));
    }
    let mut mods = vec![];
    for (i, p) in a[2..].iter().enumerate() {
        let t = std::fs::read_to_string(p).unwrap();
        let m = ll::parse_module(&t, p, i);
        eprintln!("{}: {} funcs {} globals {} unparsed", p, m.funcs.len(), m.globals.len(), m.unparsed.len());
        for u in m.unparsed.iter().take(10) { eprintln!("   {u}"); }
        mods.push(m);
    }
    let prog = interp::Prog::new(mods);
    let mut roots: Vec<String> = prog.exports.keys().filter(|k| k.starts_with("root_") && (a[1] == "all" || k.contains(&a[1]))).map(|k| k.to_string()).collect();
    roots.sort();
    let verbose = roots.len() == 1;
    for r in roots {
        let f = prog.exports.get(r.as_str()).unwrap().1.clone();
        let mut it = interp::Interp::new(&prog);
        if let Ok(h) = std::env::var("HINT") { for (k, x) in h.split(',').enumerate() { it.order_hint(x, k as u64); } }
        let st = interp::State { g: bdd::T, mem: Default::default() };
        let t = std::time::Instant::now();
        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| it.call(&f, vec![], st)));
        match res {
            Ok((s, _)) => println!("{r}: ret {} visits {} inst {} nodes {} obs {} panics {} undec {} {:.2}s", s.g == bdd::T, it.visits, it.ninst, it.b.size(), it.obs.len(), it.panics.len(), it.undecided.len(), t.elapsed().as_secs_f64()),
            Err(e) => println!("{r}: ABORT {:?} visits {} nodes {} {:.2}s", e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|x| x.to_string())), it.visits, it.b.size(), t.elapsed().as_secs_f64()),
        }
        for u in it.undecided.iter().take(if verbose { 50 } else { 3 }) { println!("  UNDECIDED {}", u.chars().take(300).collect::<String>()); }
        for p in it.panics.iter().take(if verbose { 50 } else { 3 }) { println!("  PANIC {} {}:{} {:?} sat {:?}", p.callee, p.file, p.line, p.stack, it.b.any_sat(p.guard).map(|v| v.iter().map(|(a,b)| format!("{}={}", it.b.names[*a as usize], *b as u8)).collect::<Vec<_>>())); }
        if std::env::var("DUMP").is_ok() { let n = spec::Names::from_sources("/verif/harness/src"); println!("root {r} : X\n{}", spec::dump(&mut it, &n)); }
        else if verbose { for o in &it.obs { println!("OBS {:x} g={} {}", o.path, o.guard, match &o.val { interp::ObsVal::Int(v,w) => format!("{:?}", (0..*w).map(|i| v[i]).collect::<Vec<_>>()), _ => "slice".into() }); } }
    }
}
