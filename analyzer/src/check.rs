//! The checker: analyses every root a property needs and discharges one obligation per
//! observable value (and one for the absence of reachable panics).
use crate::bdd::*;
use crate::interp::{Base, self, Interp, ObsVal, Prog};
use crate::spec::{self, Eval, RootSpec, SV};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

#[derive(Clone, Debug, PartialEq)]
pub enum St {
    Ok,
    Bad,
    Unknown,
}
#[derive(Clone, Debug)]
pub struct Obl {
    pub root: String,
    pub path: String,
    pub rule: String,
    pub st: St,
    pub detail: String,
    pub construct: String,
}
#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub roots: usize,
    pub functions: BTreeSet<String>,
    pub insts: u64,
    pub visits: u64,
    pub nodes: usize,
    pub unspecified: Vec<String>,
}
pub struct Cfg {
    pub prop: String,
    pub specs: Vec<RootSpec>,
    pub files: Vec<(String, String)>,
    pub names_dir: String,
    pub only: Option<String>,
    pub roots: Option<Vec<String>>,
    pub jobs: usize,
    pub time_cap: f64,
    pub total_cap: f64,
    pub t0: std::time::Instant,
    pub dev: bool,
}
/// Properties that are decided on every root rather than on the roots that name them.
pub const P_PANIC: &str = "C01";
pub const P_SHORT: &str = "C02";
pub const P_EFFECT: &str = "C27";

pub fn is_decoder(n: &str) -> bool {
    n.starts_with("root_") && !n.starts_with("root_x")
}
fn short_path(p: &str) -> bool {
    p == "." || p == "Err" || p.starts_with("Err.")
}

pub fn run(cfg: &Cfg) -> (Vec<Obl>, Stats) {
    let todo: Vec<&RootSpec> = cfg
        .specs
        .iter()
        .filter(|r| cfg.roots.as_ref().map(|x| x.contains(&r.name)).unwrap_or(true))
        .filter(|r| match &cfg.only {
            Some(o) => r.name.contains(o.as_str()),
            // entry points of a build with a feature of the library are only there in that build
            None => cfg.prop == P_PANIC && !r.props.iter().any(|p| p.ends_with('F')) || r.props.contains(&cfg.prop),
        })
        .collect();
    let next = AtomicUsize::new(0);
    let out: Mutex<(Vec<(usize, Vec<Obl>)>, Stats)> = Mutex::new((vec![], Stats::default()));
    std::thread::scope(|s| {
        for _ in 0..cfg.jobs.min(todo.len().max(1)) {
            std::thread::Builder::new()
                .stack_size(1 << 30)
                .spawn_scoped(s, || {
                    let mods = cfg.files.iter().enumerate().map(|(i, (p, t))| crate::ll::parse_module(t, p, i)).collect();
                    let prog = Prog::new(mods);
                    loop {
                        let k = next.fetch_add(1, Ordering::SeqCst);
                        if k >= todo.len() {
                            break;
                        }
                        let t = std::time::Instant::now();
                        let (o, st) = one(cfg, &prog, todo[k]);
                        if cfg.dev || t.elapsed().as_secs_f64() > 20.0 {
                            eprintln!("{} {:.1}s nodes {} obl {}", todo[k].name, t.elapsed().as_secs_f64(), st.nodes, o.len());
                        }
                        let mut g = out.lock().unwrap();
                        g.0.push((k, o));
                        g.1.roots += 1;
                        g.1.functions.extend(st.functions);
                        g.1.insts += st.insts;
                        g.1.visits += st.visits;
                        g.1.nodes += st.nodes;
                        g.1.unspecified.extend(st.unspecified);
                    }
                })
                .unwrap();
        }
    });
    let (mut v, st) = out.into_inner().unwrap();
    v.sort_by_key(|x| x.0);
    let mut obl: Vec<Obl> = v.into_iter().flat_map(|x| x.1).collect();
    if cfg.prop == P_EFFECT && cfg.only.is_none() {
        obl.extend(crate::effects::run(&cfg.files));
    }
    (obl, st)
}

fn one(cfg: &Cfg, prog: &Prog, rs: &RootSpec) -> (Vec<Obl>, Stats) {
    let mut st = Stats::default();
    let mut obl = vec![];
    let mk = |path: &str, rule: &str, s: St, d: String| Obl { root: rs.name.clone(), path: path.into(), rule: rule.into(), st: s, detail: d, construct: rs.src.clone() };
    let mut it = Interp::new(prog);
    let left = (cfg.total_cap - cfg.t0.elapsed().as_secs_f64()).max(0.5).min(cfg.time_cap);
    it.time_cap = left;
    it.b.deadline = std::time::Instant::now() + std::time::Duration::from_secs_f64(left);
    for (k, h) in rs.order.iter().enumerate() {
        it.order_hint(h, k as u64);
    }
    let f = match prog.exports.get(rs.name.as_str()) {
        Some(f) => f.1.clone(),
        None => {
            obl.push(mk(".", "entry point", St::Unknown, "entry point not found in the IR".into()));
            return (obl, st);
        }
    };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let s0 = interp::State { g: T, mem: Default::default() };
        it.call(&f, vec![], s0);
        st.functions.extend(it.visited.iter().map(|x| interp::demangle(x)).filter(|x| x.contains("pcics")));
        st.insts = it.ninst;
        st.visits = it.visits;
        // panics
        if cfg.prop == P_PANIC || cfg.only.is_some() {
            let ps = it.panics.clone();
            let mut seen = 0;
            for p in ps.iter() {
                let (s, w) = verdict(&mut it, p.guard);
                if s == St::Ok {
                    continue;
                }
                seen += 1;
                let mut o = mk("panic", "no reachable panic", s, format!("{} reachable at {}:{} via {} with input {}", p.callee, p.file, p.line, p.stack.join(" > "), w));
                o.construct = format!("{} ({})", p.file, p.callee);
                obl.push(o);
            }
            if seen == 0 {
                let n = ps.len();
                obl.push(mk("panic", "no reachable panic", St::Ok, format!("{n} panic call sites, none reachable")));
            }
        }
        ends(&mut it, &mut obl, &mk);
        for u in it.undecided.clone() {
            obl.push(mk("analysis", "construct understood", St::Unknown, u));
        }
        let want_values = cfg.only.is_some() || rs.props.contains(&cfg.prop);
        if !want_values {
            return;
        }
        let got = spec::collect(&mut it);
        let dom = T;
        if let Some(other) = &rs.same_as {
            let np = it.panics.len();
            it.obs.clear();
            it.undecided.clear();
            let f2 = match prog.exports.get(other.as_str()) {
                Some(f) => f.1.clone(),
                None => {
                    obl.push(mk(".", "reference", St::Unknown, format!("{other} not found")));
                    return;
                }
            };
            let s0 = interp::State { g: T, mem: Default::default() };
            it.call(&f2, vec![], s0);
            it.panics.truncate(np);
            for u in it.undecided.clone() {
                obl.push(mk("analysis", "construct understood (reference)", St::Unknown, u));
            }
            let want = spec::collect(&mut it);
            let keys: BTreeSet<u64> = got.keys().chain(want.keys()).copied().collect();
            let names = spec::Names::from_sources(&cfg.names_dir);
            let mut bad = vec![];
            let mut n = 0;
            for k in keys {
                let no = (F, ObsVal::Int(vconst(0, 64), 64));
                let a = got.get(&k).cloned().unwrap_or(no.clone());
                let b = want.get(&k).cloned().unwrap_or(no);
                n += 1;
                let d = it.b.xor(a.0, b.0);
                let (s, w) = verdict(&mut it, d);
                if s != St::Ok {
                    bad.push((k, s, format!("present on one side only, e.g. {w}")));
                    continue;
                }
                let both = it.b.and(a.0, b.0);
                let d = differ(&mut it, both, &a.1, &b.1);
                let (s, w) = verdict(&mut it, d);
                if s != St::Ok {
                    bad.push((k, s, format!("differs from the reference, e.g. {w}")));
                } else {
                    obl.push(mk(&format!("{k:016x}"), "equals the reference", St::Ok, String::new()));
                }
            }
            if n == 0 {
                obl.push(mk(".", "reference", St::Unknown, "nothing observed".into()));
            }
            if !bad.is_empty() {
                let rn = names.resolve(&got.keys().chain(want.keys()).copied().collect::<Vec<_>>());
                for (k, s, d) in bad {
                    let p = rn.get(&k).cloned().unwrap_or(format!("{k:x}"));
                    obl.push(mk(&p, "equals the reference", s, d));
                }
            }
            return;
        }
        for rule in &rs.rules {
            match rule[0].as_str() {
                "rank" => obl.extend(rank(&mut it, rs, &mk)),
                _ => obl.push(mk(".", &rule.join(" "), St::Unknown, "unknown rule".into())),
            }
        }
        let paths: Vec<(String, String)> = rs.entries.iter().map(|e| (e.path.clone(), e.text.clone())).collect();
        let mut known: HashSet<u64> = HashSet::new();
        let mut ev = Eval::new(&mut it, rs);
        for (p, text) in paths {
            let h = spec::path_hash(&p);
            known.insert(h);
            if cfg.prop == P_SHORT && is_decoder(&rs.name) && !short_path(&p) && cfg.only.is_none() && !rs.props[0].eq(P_SHORT) {
                continue;
            }
            let g = match ev.guard(&p) {
                Ok(g) => g,
                Err(e) => {
                    obl.push(mk(&p, &text, St::Unknown, format!("rule: {e}")));
                    continue;
                }
            };
            let g = ev.it.b.and(g, dom);
            let a = got.get(&h).cloned();
            let ag = a.as_ref().map(|x| x.0).unwrap_or(F);
            let d = ev.it.b.xor(ag, g);
            let (s, w) = verdict(ev.it, d);
            if s != St::Ok {
                let miss = ev.it.b.and_not(g, ag) != F;
                obl.push(mk(&p, &text, s, format!("{} e.g. for {w}", if miss { "not present where it must be," } else { "present where it must not be," })));
                continue;
            }
            let a = match a {
                Some(a) => a,
                None => {
                    obl.push(mk(&p, &text, St::Ok, "never present".into()));
                    continue;
                }
            };
            let rhs = match ev.rhs(&p) {
                Ok(r) => r,
                Err(e) => {
                    obl.push(mk(&p, &text, St::Unknown, format!("rule: {e}")));
                    continue;
                }
            };
            let d = match (&a.1, rhs) {
                (ObsVal::Int(v, w), SV::Int(x)) => diff_bits(ev.it, g, v, &x, *w),
                (ObsVal::Slice(ptr, l), SV::Slice(o, n)) => {
                    let it = &mut *ev.it;
                    let mut d = diff_bits(it, g, l, &n, l.len());
                    if d != F && !lost(it, d) {
                        let (s, w) = verdict(it, d);
                        obl.push(mk(&p, &text, s, format!("length differs, e.g. for {w}")));
                        continue;
                    }
                    let mut nz = F;
                    for &x in l.iter() {
                        nz = it.b.or(nz, x);
                    }
                    let gz = it.b.and(g, nz);
                    for al in ptr.iter() {
                        let ga = it.b.and(gz, al.g);
                        if ga == F {
                            continue;
                        }
                        let bad = if it.region_of(&al.base) == Some(0) {
                            diff_bits(it, ga, &al.off, &o, al.off.len())
                        } else {
                            ga
                        };
                        d = it.b.or(d, bad);
                    }
                    d
                }
                (ObsVal::Slice(..), SV::Str(_)) | (ObsVal::Slice(..), SV::Int(_)) | (ObsVal::Int(..), _) => g,
            };
            let (s, w) = verdict(ev.it, d);
            let det = if s == St::Ok { String::new() } else { format!("value differs, e.g. for {w}") };
            obl.push(mk(&p, &text, s, det));
        }
        if cfg.dev {
            let left: Vec<u64> = got.iter().filter(|(k, v)| !known.contains(k) && v.0 != F && !matches!(v.1, ObsVal::Int(_, 0))).map(|x| *x.0).collect();
            if !left.is_empty() {
                let names = spec::Names::from_sources(&cfg.names_dir);
                let rn = names.resolve(&got.keys().copied().collect::<Vec<_>>());
                for k in left {
                    st.unspecified.push(format!("{} {}", rs.name, rn.get(&k).cloned().unwrap_or(format!("?{k:x}"))));
                }
            }
        }
    }));
    st.nodes = it.b.size();
    match r {
        Ok(()) => {}
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|x| x.to_string())).or(e.downcast_ref::<Budget>().map(|b| format!("budget: {}", b.0))).unwrap_or("?".into());
            obl.push(mk("analysis", "analysis completes", St::Unknown, m));
        }
    }
    (obl, st)
}

/// Does the condition depend on something the analysis lost track of?
fn lost(it: &Interp, d: B) -> bool {
    it.b.support(d).into_iter().any(|v| it.b.opaque[v as usize])
}
/// Where do two bit vectors differ, under `g`? One certain difference is enough: joining them all
/// may need a diagram of exponential size.
fn diff_bits(it: &mut Interp, g: B, x: &[B], y: &[B], n: usize) -> B {
    let mut d = F;
    for i in 0..n {
        let e = it.b.xor(x[i], y[i]);
        let e = it.b.and(e, g);
        let e = real(it, e);
        if e != F && !lost(it, e) {
            return e;
        }
        d = it.b.or(d, e);
    }
    d
}
/// Bytes read at unknown places have names of their own. Keeps of a condition what is possible when
/// names that stand for the same byte have the same value.
fn real(it: &mut Interp, f: B) -> B {
    if f == F || it.windows.is_empty() {
        return f;
    }
    // the bytes the condition speaks about: (region, window, offset) and their known bits
    type Cell = (u32, Option<usize>, i64);
    let mut cells: BTreeMap<Cell, BTreeMap<usize, u32>> = BTreeMap::new();
    let mut todo = vec![f];
    let mut seen: HashSet<usize> = HashSet::new();
    while let Some(x) = todo.pop() {
        for v in it.b.support(x) {
            let name = it.b.names[v as usize].clone();
            let (cell, bit) = match parse_cell(&name) {
                Some(c) => c,
                None => continue,
            };
            let cell = match cell {
                (Some(w), k) => {
                    if w >= it.windows.len() {
                        continue;
                    }
                    if seen.insert(w) {
                        todo.extend(it.windows[w].base.iter().copied());
                    }
                    (it.windows[w].region, Some(w), k)
                }
                (None, k) => ((k >> 32) as u32, None, k & 0xffff_ffff),
            };
            cells.entry(cell).or_default().insert(bit, v);
        }
    }
    let list: Vec<(Cell, BTreeMap<usize, u32>)> = cells.into_iter().collect();
    let mut f = f;
    let fixed: Vec<((u32, u64), u8)> = it.fixed.iter().map(|(k, v)| (*k, *v)).collect();
    for ((r, w, k), bits) in &list {
        let w = match w {
            Some(w) => *w,
            None => continue,
        };
        for ((q, off), val) in &fixed {
            if q != r {
                continue;
            }
            let base = it.windows[w].base.clone();
            let k = vconst(*k as u64 as u128, crate::ll::pw());
            let p = it.b.vadd(&base, &k, F).0;
            let t = vconst(*off as u128, crate::ll::pw());
            let same = it.b.veq_in(&p, &t, f);
            let same = it.b.and(same, f);
            for (bit, &u) in bits {
                let u = it.b.var(u);
                let bad = if val >> bit & 1 == 1 { it.b.and_not(same, u) } else { it.b.and(same, u) };
                f = it.b.and_not(f, bad);
            }
        }
    }
    let mut pairs = 0;
    for i in 0..list.len() {
        for j in i + 1..list.len() {
            let ((r, w, k), a) = &list[i];
            let ((q, x, l), b) = &list[j];
            if r != q || w == x || (w.is_none() && x.is_none()) {
                continue;
            }
            pairs += 1;
            if pairs > 4000 {
                let o = it.b.atom_named("?bytes at too many unknown places", true, None);
                return it.b.and(f, o);
            }
            let place = |it: &mut Interp, w: &Option<usize>, k: i64| -> V {
                let k = vconst(k as u64 as u128, crate::ll::pw());
                match w {
                    Some(w) => {
                        let base = it.windows[*w].base.clone();
                        it.b.vadd(&base, &k, F).0
                    }
                    None => k,
                }
            };
            let p = place(it, w, *k);
            let t = place(it, x, *l);
            let same = it.b.veq_in(&p, &t, f);
            let same = it.b.and(same, f);
            if same == F {
                continue;
            }
            let mut bad = F;
            for (bit, &u) in a {
                if let Some(&v) = b.get(bit) {
                    let (u, v) = (it.b.var(u), it.b.var(v));
                    let d = it.b.xor(u, v);
                    bad = it.b.or(bad, d);
                }
            }
            let bad = it.b.and(bad, same);
            f = it.b.and_not(f, bad);
            if f == F {
                return F;
            }
        }
    }
    f
}
/// `@0x13.2`, `r1@0x4.0` (region in the high half) or `w3@0x1.7`.
fn parse_cell(name: &str) -> Option<((Option<usize>, i64), usize)> {
    let (pre, rest) = name.split_once('@')?;
    let (off, bit) = rest.split_once('.')?;
    let bit = bit.parse().ok()?;
    let k = u64::from_str_radix(off.strip_prefix("0x")?, 16).ok()? as i64;
    match pre.as_bytes().first() {
        None => Some(((None, k), bit)),
        Some(b'r') => Some(((None, k | (pre[1..].parse::<i64>().ok()?) << 32), bit)),
        Some(b'w') => Some(((Some(pre[1..].parse().ok()?), k), bit)),
        _ => None,
    }
}
/// Where do two observed values differ, under `g`?
fn differ(it: &mut Interp, g: B, a: &ObsVal, b: &ObsVal) -> B {
    match (a, b) {
        (ObsVal::Int(x, w), ObsVal::Int(y, v)) => {
            diff_bits(it, g, x, y, *w.max(v))
        }
        (ObsVal::Slice(p, l), ObsVal::Slice(q, m)) => {
            let mut d = diff_bits(it, g, l, m, l.len());
            if d != F && !lost(it, d) {
                return d;
            }
            let mut nz = F;
            for &x in l.iter() {
                nz = it.b.or(nz, x);
            }
            let gz = it.b.and(g, nz);
            for x in p.iter() {
                for y in q.iter() {
                    let gg = it.b.and(x.g, y.g);
                    let gg = it.b.and(gz, gg);
                    if gg == F {
                        continue;
                    }
                    let bad = if x.base == y.base {
                        diff_bits(it, gg, &x.off, &y.off, x.off.len())
                    } else if matches!(x.base, Base::None | Base::Opq(_)) || matches!(y.base, Base::None | Base::Opq(_)) {
                        // where the pointer comes from was lost: cannot tell
                        let o = it.b.atom_named("?lost pointer", true, None);
                        it.b.and(gg, o)
                    } else {
                        let s = (it.const_bytes(&x.base, &x.off, l, gg), it.const_bytes(&y.base, &y.off, m, gg));
                        match s {
                            (Some(s), Some(t)) if s == t => F,
                            _ => gg,
                        }
                    };
                    if bad != F && std::env::var("BITFLOW_NOTES").is_ok() {
                        eprintln!("slice: {:?}+{:?} vs {:?}+{:?}", x.base, as_const(&x.off), y.base, as_const(&y.off));
                    }
                    if bad != F && !lost(it, bad) {
                        return bad;
                    }
                    d = it.b.or(d, bad);
                }
            }
            d
        }
        _ => g,
    }
}

/// Decides whether a condition that must be impossible is: impossible, possible for certain
/// inputs, or only possible because of a value the analysis lost track of.
/// No loop comes back to its head with nothing changed.
fn ends(it: &mut Interp, obl: &mut Vec<Obl>, mk: &dyn Fn(&str, &str, St, String) -> Obl) {
    let mut by: BTreeMap<String, crate::bdd::B> = BTreeMap::new();
    for (d, f) in std::mem::take(&mut it.loops) {
        let g = by.get(&f).copied().unwrap_or(F);
        let g = it.b.or(g, d);
        by.insert(f, g);
    }
    for (f, d) in by {
        let (s, w) = verdict(it, d);
        if s != St::Ok {
            let mut o = mk("loop", "every loop ends", s, format!("a loop in {f} comes back to its start with nothing changed, with input {w}"));
            o.construct = f;
            obl.push(o);
        }
    }
}
fn verdict(it: &mut Interp, d: B) -> (St, String) {
    let d = real(it, d);
    if d == F {
        return (St::Ok, String::new());
    }
    let sup = it.b.support(d);
    let op: HashSet<u32> = sup.into_iter().filter(|v| it.b.opaque[*v as usize]).collect();
    let f = if op.is_empty() {
        d
    } else {
        let n = it.b.not(d);
        let n = it.b.exists(n, &op);
        it.b.not(n)
    };
    let lost = it.lost;
    let f = it.b.and_not(f, lost);
    if f == F {
        return (St::Unknown, "depends on a value the analysis does not track".into());
    }
    (St::Bad, witness(it, f))
}
fn witness(it: &Interp, f: B) -> String {
    let asg = match it.b.any_sat(f) {
        Some(a) => a,
        None => return "?".into(),
    };
    let mut by: BTreeMap<String, u64> = BTreeMap::new();
    let mut raw = vec![];
    for (v, x) in asg {
        let n = &it.b.names[v as usize];
        match n.rsplit_once('.').and_then(|(a, b)| b.parse::<u32>().ok().map(|b| (a.to_string(), b))) {
            Some((a, b)) if b < 64 => {
                *by.entry(a).or_insert(0) |= (x as u64) << b;
            }
            _ => raw.push(format!("{n}={}", x as u8)),
        }
    }
    let mut o: Vec<String> = by.iter().map(|(k, v)| format!("{}={v:#x}", if k.starts_with('@') { format!("byte[{}]", &k[1..]) } else { k.clone() })).collect();
    o.extend(raw);
    o.truncate(60);
    if o.is_empty() { "every input".into() } else { format!("{{{}}}", o.join(", ")) }
}

/// Termination by ranking: some integer in the iterator's state strictly decreases (or increases)
/// whenever an item comes out (snapshots 1 and 2 around the item).  A violation is an item that
/// leaves the whole state as it was: `next` is a function of the state, so the same item comes out
/// for ever.  Anything else is left undecided.
fn rank(it: &mut Interp, _rs: &RootSpec, mk: &dyn Fn(&str, &str, St, String) -> Obl) -> Vec<Obl> {
    let (g1, a) = match it.snaps.get(&1) {
        Some(x) => x.clone(),
        None => return vec![mk("state", "rank", St::Unknown, "no first snapshot".into())],
    };
    let (g2, b) = match it.snaps.get(&2) {
        Some(x) => x.clone(),
        None => return vec![mk("state", "rank", St::Ok, "no item is ever produced".into())],
    };
    let g = it.b.and(g1, g2);
    if g == F {
        return vec![mk("state", "rank", St::Ok, "no item is ever produced".into())];
    }
    let n = a.len().min(b.len());
    for w in [1usize, 2, 4, 8] {
        let mut o = 0;
        while o + w <= n {
            let mut x = vec![];
            let mut y = vec![];
            let mut ptr = false;
            for i in o..o + w {
                match (&a[i], &b[i]) {
                    (interp::Cell::B(p), interp::Cell::B(q)) => {
                        x.extend(p.iter().copied());
                        y.extend(q.iter().copied());
                    }
                    _ => ptr = true,
                }
            }
            if !ptr {
                let (x, y): (V, V) = (x.into(), y.into());
                let lt = it.b.vult(&y, &x);
                if it.b.and_not(g, lt) == F {
                    return vec![mk("state", "rank", St::Ok, format!("bytes {o}..{} of the state strictly decrease", o + w))];
                }
                let gt = it.b.vult(&x, &y);
                if it.b.and_not(g, gt) == F {
                    return vec![mk("state", "rank", St::Ok, format!("bytes {o}..{} of the state strictly increase", o + w))];
                }
            }
            o += w;
        }
    }
    let mut same = g;
    let mut moved = false;
    for i in 0..n {
        match (&a[i], &b[i]) {
            (interp::Cell::B(p), interp::Cell::B(q)) => {
                for k in 0..8 {
                    let e = it.b.xor(p[k], q[k]);
                    same = it.b.and_not(same, e);
                }
            }
            (x, y) => moved |= format!("{x:?}") != format!("{y:?}"),
        }
    }
    if moved || same == F {
        return vec![mk("state", "rank", St::Unknown, "every item changes the state, but no single component shows progress".into())];
    }
    let (st, w) = verdict(it, same);
    vec![mk("state", "rank", st, format!("an item comes out and leaves the iterator as it was, e.g. for {w}"))]
}

// ---------------------------------------------------------------- command line
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
pub fn main(args: &[String]) -> i32 {
    let mut o: HashMap<String, String> = HashMap::new();
    let mut lls = vec![];
    let mut i = 0;
    while i < args.len() {
        if let Some(k) = args[i].strip_prefix("--") {
            if k == "dev" {
                o.insert(k.into(), "1".into());
                i += 1;
            } else {
                o.insert(k.into(), args.get(i + 1).cloned().unwrap_or_default());
                i += 2;
            }
        } else {
            lls.push(args[i].clone());
            i += 1;
        }
    }
    let mut specs = vec![];
    let mut sf: Vec<_> = std::fs::read_dir(&o["spec"]).unwrap().flatten().map(|e| e.path()).filter(|p| p.extension().map(|x| x == "spec").unwrap_or(false)).collect();
    sf.sort();
    for p in sf {
        let t = std::fs::read_to_string(&p).unwrap();
        match spec::parse_spec(&t, &p.file_name().unwrap().to_string_lossy()) {
            Ok(v) => specs.extend(v),
            Err(e) => {
                eprintln!("{e}");
                return 2;
            }
        }
    }
    let files = lls.iter().map(|p| (p.clone(), std::fs::read_to_string(p).unwrap())).collect();
    let cfg = Cfg {
        prop: o.get("prop").cloned().unwrap_or_default(),
        specs,
        files,
        names_dir: o.get("names").cloned().unwrap_or_default(),
        only: o.get("only").cloned(),
        roots: o.get("roots").map(|x| x.split(',').map(|y| y.to_string()).collect()),
        jobs: o.get("jobs").and_then(|x| x.parse().ok()).unwrap_or(8),
        time_cap: o.get("cap").and_then(|x| x.parse().ok()).unwrap_or(120.0),
        total_cap: o.get("total").and_then(|x| x.parse().ok()).unwrap_or(3600.0),
        t0: std::time::Instant::now(),
        dev: o.contains_key("dev"),
    };
    let (obl, st) = run(&cfg);
    let n = |s: St| obl.iter().filter(|x| x.st == s).count();
    println!("roots {} obligations {} discharged {} violated {} undecided {} functions {} instructions {}", st.roots, obl.len(), n(St::Ok), n(St::Bad), n(St::Unknown), st.functions.len(), st.insts);
    for x in obl.iter().filter(|x| x.st != St::Ok) {
        println!("{} {} :: {} [{}] {} -- {}", if x.st == St::Bad { "BAD" } else { "UNKNOWN" }, x.root, x.path, x.construct, x.rule.chars().take(200).collect::<String>(), x.detail.chars().take(500).collect::<String>());
    }
    for u in &st.unspecified {
        println!("UNSPECIFIED {u}");
    }
    if let Some(p) = o.get("out") {
        let list = |s: St, m: usize| obl.iter().filter(|x| x.st == s).take(m).map(|x| format!("{{\"root\":{},\"path\":{},\"rule\":{},\"construct\":{},\"detail\":{}}}", js(&x.root), js(&x.path), js(&x.rule), js(&x.construct), js(&x.detail))).collect::<Vec<_>>().join(",");
        let roots: BTreeSet<&String> = obl.iter().map(|x| &x.root).collect();
        let t = format!(
            "{{\"roots\":[{}],\"obligations\":{},\"discharged\":{},\"bad\":[{}],\"undecided\":[{}],\"samples\":[{}],\"functions\":[{}],\"instructions\":{},\"block_visits\":{},\"bdd_nodes\":{}}}",
            roots.iter().map(|x| js(x)).collect::<Vec<_>>().join(","),
            obl.len(),
            n(St::Ok),
            list(St::Bad, 1000),
            list(St::Unknown, 1000),
            list(St::Ok, 12),
            st.functions.iter().map(|x| js(x)).collect::<Vec<_>>().join(","),
            st.insts,
            st.visits,
            st.nodes
        );
        std::fs::write(p, t).unwrap();
    }
    if n(St::Bad) > 0 { 1 } else { 0 }
}
