//! Forward abstract interpretation of the compiler's IR.
//!
//! Domain: every integer bit is a decision diagram over *provenance atoms* ("bit 3 of input
//! byte 0x12", "bit 2 of the slice length", ...); a pointer is a guarded set of
//! (object, offset) pairs; memory is byte-addressed cells.  One abstract state per program
//! point: states are joined wherever control flow meets; nothing is enumerated per path and
//! nothing is executed.
use crate::bdd::*;
use crate::ll::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Base {
    None,
    Obj(u32),
    Fn(usize, Rc<str>),
    Opq(u32),
}
#[derive(Clone, Debug, PartialEq)]
pub struct Alt {
    pub g: B,
    pub base: Base,
    pub off: V,
}
pub type Ptr = Rc<Vec<Alt>>;
#[derive(Clone, Debug)]
pub enum Val {
    I(V),
    P(Ptr),
    A(Rc<Vec<Val>>),
    /// an integer kept as raw bytes because some of them belong to a pointer
    C(Rc<Vec<Cell>>),
    U,
}
#[derive(Clone, Debug)]
pub enum Cell {
    U,
    B([B; 8]),
    P(Ptr, u8),
    /// different bytes of pointers under disjoint conditions
    M(Rc<Vec<(B, Cell)>>),
}
pub enum ObjKind {
    Const(Rc<Vec<Cell>>),
    Mutable(String),
    Stack,
    Input(u32),
}
type Mem = BTreeMap<u32, Rc<Vec<Cell>>>;
#[derive(Clone)]
pub struct State {
    pub g: B,
    pub mem: Mem,
}
#[derive(Clone)]
struct Frame {
    st: State,
    env: Vec<Option<Val>>,
}

pub struct Prog {
    pub mods: Vec<Module>,
    pub exports: HashMap<Rc<str>, (usize, Rc<Func>)>,
    pub gexports: HashMap<Rc<str>, usize>,
    pub noreturn: HashMap<Rc<str>, bool>,
}
impl Prog {
    pub fn new(mods: Vec<Module>) -> Prog {
        let mut exports = HashMap::new();
        let mut gexports = HashMap::new();
        let mut noreturn = HashMap::new();
        for (i, m) in mods.iter().enumerate() {
            for (n, f) in &m.funcs {
                exports.entry(n.clone()).or_insert((i, f.clone()));
            }
            for (n, g) in &m.globals {
                if g.init.is_some() {
                    gexports.entry(n.clone()).or_insert(i);
                }
            }
            for (n, nr) in &m.decls {
                *noreturn.entry(n.clone()).or_insert(false) |= *nr;
            }
        }
        for (i, m) in mods.iter().enumerate() {
            for (a, t) in &m.aliases {
                if let Some(f) = m.funcs.get(t) {
                    exports.entry(a.clone()).or_insert((i, f.clone()));
                }
            }
        }
        Prog { mods, exports, gexports, noreturn }
    }
    pub fn func(&self, module: usize, name: &str) -> Option<Rc<Func>> {
        let m = &self.mods[module];
        if let Some(f) = m.funcs.get(name) {
            return Some(f.clone());
        }
        if let Some(t) = m.aliases.get(name) {
            if let Some(f) = m.funcs.get(t) {
                return Some(f.clone());
            }
        }
        self.exports.get(name).map(|x| x.1.clone())
    }
}

struct FInfo {
    order: Vec<usize>,         // block -> position in weak topological order
    live_in: Vec<Vec<u64>>,    // bitset per block
    preds_from: Vec<usize>,
    head: Vec<bool>, // target of a back edge
}
struct Watch {
    count: u32,
    next: u32,
    snap: Option<Frame>,
}

#[derive(Clone)]
pub struct PanicSite {
    pub guard: B,
    pub callee: String,
    pub file: String,
    pub line: u32,
    pub stack: Vec<String>,
}
#[derive(Clone)]
pub enum ObsVal {
    Int(V, usize),
    Slice(Ptr, V),
}
#[derive(Clone)]
pub struct ObsRec {
    pub path: u64,
    pub guard: B,
    pub val: ObsVal,
}
pub struct Window {
    pub region: u32,
    pub base: V,
}

pub struct Interp<'p> {
    pub prog: &'p Prog,
    pub b: Bdd,
    objs: Vec<(ObjKind, usize)>,
    gobj: HashMap<(usize, Rc<str>), u32>,
    infos: HashMap<*const Func, Rc<FInfo>>,
    contents: bool,
    pub windows: Vec<Window>,
    /// input bytes the root fixes
    pub fixed: HashMap<(u32, u64), u8>,
    regions: HashMap<u32, u32>,
    pub obs: Vec<ObsRec>,
    pub panics: Vec<PanicSite>,
    /// conditions under which a loop comes back to its head with nothing changed
    pub loops: Vec<(B, String)>,
    loop_nodes: usize,
    pub undecided: BTreeSet<String>,
    /// The path condition of the instruction under way, and where anything was not understood
    pub cur_g: B,
    pub lost: B,
    pub snaps: BTreeMap<u32, (B, Vec<Cell>)>,
    pub stack: Vec<Rc<str>>,
    pub visited: BTreeSet<Rc<str>>,
    pub visits: u64,
    pub visit_cap: u64,
    pub ninst: u64,
    pub len_bits: usize,
    pub mux_max: usize,
    pub started: std::time::Instant,
    pub time_cap: f64,
    pub loads: u64,
}

pub fn int(v: V) -> Val {
    Val::I(v)
}
fn cval(x: u128, w: usize) -> Val {
    Val::I(vconst(x, w))
}

impl<'p> Interp<'p> {
    pub fn new(prog: &'p Prog) -> Self {
        Interp {
            prog,
            b: Bdd::new(),
            objs: vec![],
            gobj: HashMap::new(),
            infos: HashMap::new(),
            windows: vec![],
            fixed: HashMap::new(),
            regions: HashMap::new(),
            obs: vec![],
            panics: vec![],
            loops: vec![],
            loop_nodes: 0,
            undecided: BTreeSet::new(),
            cur_g: T,
            lost: F,
            snaps: BTreeMap::new(),
            stack: vec![],
            visited: BTreeSet::new(),
            visits: 0,
            visit_cap: 400_000,
            ninst: 0,
            contents: false,
            len_bits: 13,
            mux_max: 16,
            started: std::time::Instant::now(),
            time_cap: 300.0,
            loads: 0,
        }
    }
    /// The result is an arbitrary value; what depends on it is undecided, nothing else.
    fn note(&mut self, s: &str) {
        if std::env::var("BITFLOW_NOTES").is_ok() {
            let f = self.stack.last().map(|x| demangle(x)).unwrap_or_default();
            eprintln!("note: {s} (in {f})");
        }
    }
    fn undec(&mut self, s: impl Into<String>) {
        let f = self.stack.last().map(|x| demangle(x)).unwrap_or_default();
        let s = s.into();
        self.undecided.insert(format!("{s} (in {f})"));
        self.lost = self.b.or(self.lost, self.cur_g);
    }
    // ------------------------------------------------------------- atoms
    pub fn in_bit(&mut self, region: u32, off: u64, bit: usize) -> B {
        if let Some(v) = self.fixed.get(&(region, off)) {
            return if v >> bit & 1 == 1 { T } else { F };
        }
        let n = if region == 0 { format!("@{off:#x}.{bit}") } else { format!("r{region}@{off:#x}.{bit}") };
        self.b.atom_named(&n, false, None)
    }
    pub fn len_vec(&mut self, region: u32) -> V {
        let lb = self.len_bits;
        let mut v = vec![F; pw()];
        for i in (0..lb).rev() {
            let n = if region == 0 { format!("len.{i}") } else { format!("len{region}.{i}") };
            v[i] = self.b.atom_named(&n, false, Some((20 - i as u64) * 10 + if region == 0 { 0 } else { 1000 * region as u64 }));
        }
        v.into()
    }
    /// Order hint: place the named field next to the length bits of equal weight.
    /// `s0:8`, `@0x6.4:12`, `w0@0x2.0:8` (first bit, width), optionally `<<k` (weight shift).
    pub fn order_hint(&mut self, h: &str, k: u64) {
        // "contents" compares slices by their bytes instead of by their place in the input
        if h == "contents" {
            self.contents = true;
            return;
        }
        // "mix:N" puts the first N bytes of two inputs (and two groups of numbers) side by side
        if let Some(n) = h.strip_prefix("mix:") {
            let n: u64 = n.parse().expect("hint");
            for o in 0..n {
                for b in (0..8).rev() {
                    for r in ["", "r1"] {
                        self.b.atom_named(&format!("{r}@{o:#x}.{b}"), false, Some(3000 + (o * 8 + 7 - b) * 2 + r.len() as u64 / 2));
                    }
                }
            }
            for b in (0..32u64).rev() {
                for s in [0, 8, 1, 9] {
                    self.b.atom_named(&format!("s{s}.{b}"), false, Some(2000 + (s & 1) * 100 + (31 - b) * 2 + s / 8));
                }
            }
            return;
        }
        let (h, sh) = match h.split_once("<<") {
            Some((a, b)) => (a, b.parse::<u64>().unwrap_or(0)),
            None => (h, 0),
        };
        let (base, n) = h.split_once(':').expect("hint");
        let n: u64 = n.parse().expect("hint width");
        for j in 0..n {
            let name = if base.contains('@') {
                let (pre, bit) = base.split_once('.').expect("hint bit");
                let (r, off) = pre.split_once('@').expect("hint off");
                let off = u64::from_str_radix(off.trim_start_matches("0x"), 16).expect("hint hex");
                let x = bit.parse::<u64>().expect("hint bit") + j;
                format!("{r}@{:#x}.{}", off + x / 8, x % 8)
            } else {
                format!("{base}.{j}")
            };
            self.b.atom_named(&name, false, Some((20u64.saturating_sub(j + sh)) * 10 + 1 + k));
        }
    }
    pub fn sym(&mut self, id: u32, w: usize) -> V {
        let mut v = vec![F; w];
        for i in (0..w).rev() {
            let n = format!("s{id}.{i}");
            v[i] = self.b.atom_named(&n, false, Some(10_000 + id as u64 * 200 + (100 - i as u64)));
        }
        v.into()
    }
    fn opaque(&mut self, key: &str, w: usize) -> V {
        (0..w).map(|i| self.b.atom_named(&format!("?{key}.{i}"), true, None)).collect()
    }
    pub fn region_obj(&mut self, r: u32) -> u32 {
        if let Some(&o) = self.regions.get(&r) {
            return o;
        }
        let o = self.objs.len() as u32;
        self.objs.push((ObjKind::Input(r), usize::MAX));
        self.regions.insert(r, o);
        o
    }
    pub fn region_of(&self, base: &Base) -> Option<u32> {
        match base {
            Base::Obj(o) => match self.objs[*o as usize].0 {
                ObjKind::Input(r) => Some(r),
                _ => None,
            },
            _ => None,
        }
    }
    /// Simplify a vector under a care set (constant bits only).
    pub fn simp(&mut self, v: &[B], care: B) -> V {
        v.iter().map(|&x| self.b.simplify_const(x, care)).collect()
    }
    /// One byte of an input region at a (possibly symbolic) offset.
    pub fn input_byte(&mut self, region: u32, off: &V, care: B) -> [B; 8] {
        let off = &zext(off, pw());
        let mut r = [F; 8];
        if let Some(k) = as_const(off) {
            for i in 0..8 {
                r[i] = self.in_bit(region, k as u64, i);
            }
            return r;
        }
        let s = self.simp(off, care);
        if let Some(k) = as_const(&s) {
            for i in 0..8 {
                r[i] = self.in_bit(region, k as u64, i);
            }
            return r;
        }
        for w in 0..self.windows.len() {
            if self.windows[w].region != region {
                continue;
            }
            let base = self.windows[w].base.clone();
            let d = self.b.vsub(&s, &base).0;
            // quick reject on any clearly varying bit
            let mut ok = true;
            let mut k = 0u128;
            for i in 0..pw() {
                match self.b.simplify_const(d[i], care) {
                    F => {}
                    T => k |= 1 << i,
                    _ => {
                        ok = false;
                        break;
                    }
                }
            }
            if ok {
                let k = sx(k);
                if k.abs() < 0x4000 {
                    for i in 0..8 {
                        r[i] = self.b.atom_named(&format!("w{w}@{k:#x}.{i}"), false, None);
                    }
                    return r;
                }
            }
        }
        if let Some(vals) = self.b.values(&s, care, self.mux_max) {
            let mut first = true;
            for (k, g) in vals {
                for i in 0..8 {
                    let a = self.in_bit(region, k as u64, i);
                    r[i] = if first { a } else { self.b.ite(g, a, r[i]) };
                }
                first = false;
            }
            return r;
        }
        // a few bytes around a window that is known already
        for w in 0..self.windows.len() {
            if self.windows[w].region != region {
                continue;
            }
            let base = self.windows[w].base.clone();
            let d = self.b.vsub(&s, &base).0;
            let vals = match self.b.values(&d, care, 16) {
                Some(v) => v,
                None => continue,
            };
            if vals.is_empty() || vals.iter().any(|(k, _)| sx(*k).abs() >= 0x4000) {
                continue;
            }
            let mut first = true;
            for (k, g) in vals {
                let k = sx(k);
                for i in 0..8 {
                    let a = self.b.atom_named(&format!("w{w}@{k:#x}.{i}"), false, None);
                    r[i] = if first { a } else { self.b.ite(g, a, r[i]) };
                }
                first = false;
            }
            return r;
        }
        let w = self.windows.len();
        self.windows.push(Window { region, base: s });
        for i in 0..8 {
            r[i] = self.b.atom_named(&format!("w{w}@0x0.{i}"), false, None);
        }
        r
    }
    // ------------------------------------------------------------- pointers
    fn ptr1(&self, base: Base, off: V) -> Ptr {
        Rc::new(vec![Alt { g: T, base, off }])
    }
    fn as_ptr(&mut self, v: &Val) -> Ptr {
        match v {
            Val::P(p) => p.clone(),
            Val::I(x) => {
                let x = zext(x, pw());
                self.ptr1(Base::None, x)
            }
            Val::C(c) => {
                let c = c.clone();
                let v: V = self.cell_bits(&c, T).into();
                let x = zext(&v, pw());
                self.ptr1(Base::None, x)
            }
            _ => {
                let x = vconst(0, pw());
                self.ptr1(Base::None, x)
            }
        }
    }
    fn norm(&self, p: Vec<Alt>) -> Val {
        if p.iter().all(|a| a.base == Base::None) && p.len() == 1 {
            return Val::I(p[0].off.clone());
        }
        Val::P(Rc::new(p))
    }
    pub fn merge_ptr_pub(&mut self, g: B, a: &Ptr, b: &Ptr) -> Ptr {
        self.merge_ptr(g, a, b)
    }
    /// The bytes of a constant object, if base, offset and length are constant under `g`.
    pub fn const_bytes(&mut self, base: &Base, off: &V, len: &V, g: B) -> Option<Vec<u8>> {
        let o = match base {
            Base::Obj(o) => *o,
            _ => return None,
        };
        let cells = match &self.objs[o as usize].0 {
            ObjKind::Const(c) => c.clone(),
            _ => return None,
        };
        let off = self.simp(off, g);
        let len = self.simp(len, g);
        let k = as_const(&off)? as usize;
        let n = as_const(&len)? as usize;
        let mut out = vec![];
        for i in k..k.checked_add(n)? {
            match cells.get(i)? {
                Cell::B(b) => out.push(as_const(b)? as u8),
                _ => return None,
            }
        }
        Some(out)
    }
    fn merge_ptr(&mut self, g: B, a: &Ptr, b: &Ptr) -> Ptr {
        if Rc::ptr_eq(a, b) || a == b {
            return a.clone();
        }
        let mut out: Vec<Alt> = vec![];
        let ng = self.b.not(g);
        for (src, gg) in [(a, g), (b, ng)] {
            for x in src.iter() {
                let gx = self.b.and(gg, x.g);
                if gx == F {
                    continue;
                }
                if let Some(k) = out.iter().position(|y| y.base == x.base) {
                    let off = if out[k].off == x.off { x.off.clone() } else { self.b.vite(gx, &x.off, &out[k].off) };
                    let gn = self.b.or(out[k].g, gx);
                    out[k] = Alt { g: gn, base: x.base.clone(), off };
                } else {
                    out.push(Alt { g: gx, base: x.base.clone(), off: x.off.clone() });
                }
            }
        }
        if out.len() == 1 {
            out[0].g = T;
        }
        Rc::new(out)
    }
    /// `g ? a : b`
    pub fn merge_val(&mut self, g: B, a: &Val, b: &Val) -> Val {
        match (a, b) {
            (Val::U, x) | (x, Val::U) => x.clone(),
            (Val::I(x), Val::I(y)) => {
                if x == y {
                    return a.clone();
                }
                if x.len() != y.len() {
                    return a.clone();
                }
                Val::I(self.b.vite(g, x, y))
            }
            (Val::A(x), Val::A(y)) => {
                if Rc::ptr_eq(x, y) {
                    return a.clone();
                }
                let v = x.iter().zip(y.iter()).map(|(p, q)| self.merge_val(g, p, q)).collect();
                Val::A(Rc::new(v))
            }
            (Val::C(_), _) | (_, Val::C(_)) => {
                let n = match (a, b) {
                    (Val::C(x), _) | (_, Val::C(x)) => x.len(),
                    _ => 0,
                };
                let x = self.to_cells(a, n);
                let y = self.to_cells(b, n);
                let v: Vec<Cell> = x.iter().zip(y.iter()).map(|(p, q)| self.merge_cell(g, p, q)).collect();
                self.mkc(&v, n * 8, T)
            }
            (Val::P(x), Val::P(y)) => Val::P(self.merge_ptr(g, x, y)),
            (Val::P(_), Val::I(_)) | (Val::I(_), Val::P(_)) => {
                let x = self.as_ptr(a);
                let y = self.as_ptr(b);
                Val::P(self.merge_ptr(g, &x, &y))
            }
            _ => a.clone(),
        }
    }
    fn merge_cell(&mut self, g: B, a: &Cell, b: &Cell) -> Cell {
        match (a, b) {
            (Cell::U, x) | (x, Cell::U) => x.clone(),
            (Cell::B(x), Cell::B(y)) => {
                if x == y {
                    return a.clone();
                }
                let mut r = [F; 8];
                for i in 0..8 {
                    r[i] = self.b.ite(g, x[i], y[i]);
                }
                Cell::B(r)
            }
            (Cell::P(x, k), Cell::P(y, l)) if k == l => Cell::P(self.merge_ptr(g, x, y), *k),
            (Cell::P(x, k), Cell::B(y)) => {
                let q = self.byte_ptr(y, *k);
                Cell::P(self.merge_ptr(g, x, &q), *k)
            }
            (Cell::B(x), Cell::P(y, k)) => {
                let q = self.byte_ptr(x, *k);
                Cell::P(self.merge_ptr(g, &q, y), *k)
            }
            _ => {
                let mut out: Vec<(B, Cell)> = vec![];
                let ng = self.b.not(g);
                for (c, gg) in [(a, g), (b, ng)] {
                    let parts = match c {
                        Cell::M(m) => (**m).clone(),
                        c => vec![(T, c.clone())],
                    };
                    for (h, x) in parts {
                        let h = self.b.and(h, gg);
                        if h == F {
                            continue;
                        }
                        let same = out.iter().position(|(_, y)| match (&x, y) {
                            (Cell::B(_), Cell::B(_)) => true,
                            (Cell::P(_, j), Cell::P(_, k)) => j == k,
                            _ => false,
                        });
                        if let Some(i) = same {
                            let y = out[i].1.clone();
                            out[i].1 = self.merge_cell(h, &x, &y);
                            out[i].0 = self.b.or(out[i].0, h);
                        } else {
                            out.push((h, x));
                        }
                    }
                }
                if out.len() == 1 {
                    return out.pop().unwrap().1;
                }
                Cell::M(Rc::new(out))
            }
        }
    }
    fn to_cells(&mut self, v: &Val, n: usize) -> Vec<Cell> {
        if let Val::C(c) = v {
            let mut r = (**c).clone();
            r.resize(n, Cell::B([F; 8]));
            return r;
        }
        let mut r = vec![Cell::B([F; 8]); n];
        match v {
            Val::I(_) | Val::P(_) => {
                for (k, x) in self.sig_cells(v).into_iter().enumerate().take(n) {
                    r[k] = x;
                }
            }
            _ => r = vec![Cell::U; n],
        }
        r
    }
    /// The bytes with only the alternatives possible under `pc`.
    fn narrow(&mut self, sl: &[Cell], pc: B) -> Vec<Cell> {
        let mut out = vec![];
        for c in sl {
            out.push(match c {
                Cell::P(p, k) if pc != T => {
                    let mut v: Vec<Alt> = p.iter().filter(|a| self.b.and(a.g, pc) != F).cloned().collect();
                    if v.len() == 1 {
                        v[0].g = T;
                    }
                    if v.is_empty() {
                        Cell::U
                    } else {
                        Cell::P(Rc::new(v), *k)
                    }
                }
                Cell::M(m) => {
                    let mut v: Vec<(B, Cell)> = vec![];
                    for (h, x) in m.iter() {
                        let hp = self.b.and(*h, pc);
                        if hp != F {
                            let x = self.narrow(&[x.clone()], hp).pop().unwrap();
                            v.push((*h, x));
                        }
                    }
                    match v.len() {
                        0 => Cell::U,
                        1 => v.pop().unwrap().1,
                        _ => Cell::M(Rc::new(v)),
                    }
                }
                c => c.clone(),
            });
        }
        out
    }
    /// An integer of `w` bits from raw bytes, kept as bytes where they belong to a pointer.
    fn mkc(&mut self, sl: &[Cell], w: usize, pc: B) -> Val {
        let n = sl.len();
        let sl = &self.narrow(sl, pc)[..];
        let based = |c: &Cell| match c {
            Cell::P(p, _) => p.iter().any(|a| a.base != Base::None),
            Cell::M(_) => true,
            _ => false,
        };
        if n == pb() && w == pw() && sl.iter().enumerate().all(|(k, c)| matches!(c, Cell::P(_, j) if *j as usize == k)) {
            return self.read_sig(sl, pw(), pc);
        }
        if w % 8 != 0 || !sl.iter().any(based) {
            let v = self.cell_bits(sl, pc);
            return Val::I(v[..w.min(v.len())].to_vec().into());
        }
        Val::C(Rc::new(sl.to_vec()))
    }
    fn byte_ptr(&mut self, bits: &[B; 8], k: u8) -> Ptr {
        let mut v = vec![F; pw()];
        for i in 0..8 {
            v[k as usize * 8 + i] = bits[i];
        }
        self.ptr1(Base::None, v.into())
    }
    // ------------------------------------------------------------- memory
    fn global_obj(&mut self, module: usize, name: &Rc<str>) -> Option<u32> {
        let mut m = module;
        let mut n = name.clone();
        if let Some(t) = self.prog.mods[m].aliases.get(&n) {
            n = t.clone();
        }
        let has = self.prog.mods[m].globals.get(&n).map(|g| g.init.is_some()).unwrap_or(false);
        if !has {
            m = *self.prog.gexports.get(&n)?;
        }
        if let Some(&o) = self.gobj.get(&(m, n.clone())) {
            return Some(o);
        }
        let g = self.prog.mods[m].globals.get(&n)?.clone();
        let o = self.objs.len() as u32;
        self.gobj.insert((m, n.clone()), o);
        let size = g.ty.size();
        self.objs.push((ObjKind::Stack, size));
        let mut cells = vec![Cell::U; size];
        if let Some(i) = &g.init {
            self.init_cells(m, &g.ty, i, &mut cells, 0);
        }
        self.objs[o as usize].0 = if g.constant { ObjKind::Const(Rc::new(cells)) } else { ObjKind::Mutable(n.to_string()) };
        Some(o)
    }
    fn init_cells(&mut self, m: usize, ty: &Ty, c: &C, cells: &mut [Cell], at: usize) {
        let byte = |x: u8| {
            let mut r = [F; 8];
            for i in 0..8 {
                r[i] = if x >> i & 1 == 1 { T } else { F };
            }
            Cell::B(r)
        };
        match c {
            C::Bytes(v) => {
                for (i, x) in v.iter().enumerate() {
                    cells[at + i] = byte(*x);
                }
            }
            C::Zero | C::Null => {
                for i in 0..ty.size() {
                    cells[at + i] = byte(0);
                }
            }
            C::Undef => {}
            C::Int(x, _) => {
                for i in 0..ty.size() {
                    let k = if be() { ty.size() - 1 - i } else { i };
                    cells[at + k] = byte((x >> (8 * i)) as u8);
                }
            }
            C::Agg(v) => {
                for (i, (t, c)) in v.iter().enumerate() {
                    let (o, _) = ty.field_off(i);
                    self.init_cells(m, t, c, cells, at + o);
                }
            }
            _ => {
                let v = self.cst(m, ty, c);
                self.write_cells(cells, at, ty, &v);
            }
        }
    }
    fn cells_of(&self, st: &State, o: u32) -> Option<Rc<Vec<Cell>>> {
        if let Some(c) = st.mem.get(&o) {
            return Some(c.clone());
        }
        match &self.objs[o as usize].0 {
            ObjKind::Const(c) => Some(c.clone()),
            _ => None,
        }
    }
    fn write_cells(&mut self, cells: &mut [Cell], at: usize, ty: &Ty, v: &Val) {
        match v {
            Val::A(xs) => {
                for (i, x) in xs.iter().enumerate() {
                    let (o, t) = ty.field_off(i);
                    self.write_cells(cells, at + o, &t, x);
                }
            }
            Val::U => {
                for i in 0..ty.store_size() {
                    if at + i < cells.len() {
                        cells[at + i] = Cell::U;
                    }
                }
            }
            v => {
                let n = match v {
                    Val::I(x) => (x.len() + 7) / 8,
                    Val::C(c) => c.len(),
                    _ => pb(),
                };
                let c = self.sig_cells(v);
                for (k, x) in c.into_iter().enumerate() {
                    let k = if be() { n - 1 - k } else { k };
                    if at + k < cells.len() {
                        cells[at + k] = x;
                    }
                }
            }
        }
    }
    /// The bytes of a number or pointer in order of weight, the lowest first.
    fn sig_cells(&self, v: &Val) -> Vec<Cell> {
        match v {
            Val::I(x) => x
                .chunks(8)
                .map(|c| {
                    let mut r = [F; 8];
                    r[..c.len()].copy_from_slice(c);
                    Cell::B(r)
                })
                .collect(),
            Val::C(c) => c.to_vec(),
            Val::P(p) => (0..pb()).map(|k| Cell::P(p.clone(), k as u8)).collect(),
            _ => vec![],
        }
    }
    fn read_cells(&mut self, cells: &[Cell], at: usize, ty: &Ty, pc: B) -> Val {
        match ty {
            Ty::Struct(fs, _) => {
                let v = (0..fs.len())
                    .map(|i| {
                        let (o, t) = ty.field_off(i);
                        self.read_cells(cells, at + o, &t, pc)
                    })
                    .collect();
                Val::A(Rc::new(v))
            }
            Ty::Array(n, t) | Ty::Vec(n, t) => {
                let s = t.size();
                let v = (0..*n).map(|i| self.read_cells(cells, at + i * s, t, pc)).collect();
                Val::A(Rc::new(v))
            }
            Ty::Int(w) | Ty::Float(w) => self.read_int(cells, at, *w, pc),
            Ty::Ptr => self.read_int(cells, at, pw(), pc),
            _ => Val::U,
        }
    }
    fn read_int(&mut self, cells: &[Cell], at: usize, w: usize, pc: B) -> Val {
        let n = (w + 7) / 8;
        if at + n > cells.len() {
            self.undec(format!("load outside its object {at}+{n} of {}", cells.len()));
            return Val::U;
        }
        if be() {
            let v: Vec<Cell> = cells[at..at + n].iter().rev().cloned().collect();
            return self.read_sig(&v, w, pc);
        }
        self.read_sig(&cells[at..at + n], w, pc)
    }
    /// The same from bytes in order of weight, the lowest first.
    fn read_sig(&mut self, sl: &[Cell], w: usize, pc: B) -> Val {
        let n = sl.len();
        if sl.iter().all(|c| matches!(c, Cell::U)) {
            return Val::U;
        }
        if sl.iter().all(|c| !matches!(c, Cell::P(..) | Cell::M(_))) {
            let mut v = Vec::with_capacity(w);
            for c in sl {
                match c {
                    Cell::B(b) => v.extend_from_slice(b),
                    _ => v.extend_from_slice(&[F; 8]),
                }
            }
            v.truncate(w);
            return Val::I(v.into());
        }
        if n == pb() {
            // fast path: all bytes of one pointer
            if let Cell::P(p0, 0) = &sl[0] {
                if sl.iter().enumerate().all(|(k, c)| matches!(c, Cell::P(p, j) if *j as usize == k && (Rc::ptr_eq(p, p0) || p == p0))) {
                    let mut alts = vec![];
                    for a in p0.iter() {
                        if self.b.and(a.g, pc) != F {
                            alts.push(a.clone());
                        }
                    }
                    if alts.len() == 1 {
                        alts[0].g = T;
                    }
                    if alts.is_empty() {
                        return Val::U;
                    }
                    return self.norm(alts);
                }
            }
            // general: refine the guards of all eight bytes together
            struct Combo {
                g: B,
                base: Option<Base>,
                off: Vec<B>,
                bad: bool,
                /// the bytes that are plain numbers
                num: [Option<[B; 8]>; 8],
            }
            let mut combos = vec![Combo { g: T, base: None, off: vec![F; pw()], bad: false, num: [Some([F; 8]); 8] }];
            for (k, c) in sl.iter().enumerate() {
                let mut alts: Vec<Alt> = vec![];
                let parts = match c {
                    Cell::U => continue,
                    Cell::M(m) => (**m).clone(),
                    c => vec![(T, c.clone())],
                };
                for (h, c) in parts {
                    match &c {
                        Cell::U | Cell::M(_) => {}
                        Cell::B(bits) => {
                            let mut v = vec![F; pw()];
                            v[k * 8..k * 8 + 8].copy_from_slice(bits);
                            alts.push(Alt { g: h, base: Base::None, off: v.into() });
                        }
                        Cell::P(p, j) => {
                            for a in p.iter() {
                                let g = self.b.and(a.g, h);
                                if g == F {
                                    continue;
                                }
                                if *j as usize == k {
                                    alts.push(Alt { g, base: a.base.clone(), off: a.off.clone() });
                                } else {
                                    let mut v = vec![F; pw()];
                                    let j = *j as usize;
                                    v[k * 8..k * 8 + 8].copy_from_slice(&a.off[j * 8..j * 8 + 8]);
                                    alts.push(Alt { g, base: if a.base == Base::None { Base::None } else { Base::Opq(0) }, off: v.into() });
                                }
                            }
                        }
                    }
                }
                let mut nx = vec![];
                for cb in combos {
                    for a in &alts {
                        let g = self.b.and(cb.g, a.g);
                        if self.b.and(g, pc) == F {
                            continue;
                        }
                        let mut bad = cb.bad || matches!(a.base, Base::Opq(_));
                        let mut off = cb.off.clone();
                        match &cb.base {
                            Some(x) if *x != a.base => bad = true,
                            Some(x) if *x != Base::None => {
                                if off[..] != a.off[..] {
                                    let gp = self.b.and(g, pc);
                                    for i in 0..pw() {
                                        let d = self.b.xor(off[i], a.off[i]);
                                        if self.b.and(d, gp) != F {
                                            bad = true;
                                            break;
                                        }
                                    }
                                }
                            }
                            _ => {}
                        }
                        let mut num = cb.num;
                        if a.base == Base::None {
                            off[k * 8..k * 8 + 8].copy_from_slice(&a.off[k * 8..k * 8 + 8]);
                            let mut x = [F; 8];
                            x.copy_from_slice(&a.off[k * 8..k * 8 + 8]);
                            num[k] = Some(x);
                        } else {
                            off = a.off.to_vec();
                            num[k] = None;
                        }
                        nx.push(Combo { g, base: Some(a.base.clone()), off, bad, num });
                    }
                }
                combos = nx;
                if combos.len() > 4096 {
                    self.undec("too many pointer alternatives");
                    return Val::U;
                }
            }
            let mut out: Option<Ptr> = None;
            for cb in combos {
                let p = if cb.bad {
                    self.note("integer view of pointer bytes");
                    let mut o = self.opaque(&format!("ptrmix{}", self.ninst), pw()).to_vec();
                    for (k, x) in cb.num.iter().enumerate().take(pb()) {
                        if let Some(x) = x {
                            o[k * 8..k * 8 + 8].copy_from_slice(x);
                        }
                    }
                    self.ptr1(Base::None, o.into())
                } else {
                    self.ptr1(cb.base.unwrap_or(Base::None), cb.off.into())
                };
                out = Some(match out {
                    None => p,
                    Some(q) => self.merge_ptr(cb.g, &p, &q),
                });
            }
            return match out {
                None => Val::U,
                Some(p) => self.norm((*p).clone()),
            };
        }
        self.mkc(sl, w, pc)
    }
    fn cell_bits(&mut self, sl: &[Cell], pc: B) -> Vec<B> {
        let mut v: Vec<B> = Vec::with_capacity(sl.len() * 8);
        for c in sl {
            match c {
                Cell::U => v.extend_from_slice(&[F; 8]),
                Cell::B(b) => v.extend_from_slice(b),
                Cell::M(m) => {
                    let mut r: Option<Vec<B>> = None;
                    for (h, x) in m.iter() {
                        let hp = self.b.and(*h, pc);
                        if hp == F {
                            continue;
                        }
                        let x = self.cell_bits(&[x.clone()], pc);
                        r = Some(match r {
                            None => x,
                            Some(q) => (0..8).map(|i| self.b.ite(*h, x[i], q[i])).collect(),
                        });
                    }
                    v.extend_from_slice(&r.unwrap_or(vec![F; 8]));
                }
                Cell::P(p, j) => {
                    let mut r: Option<[B; 8]> = None;
                    for a in p.iter() {
                        if self.b.and(a.g, pc) == F {
                            continue;
                        }
                        let mut x = [F; 8];
                        if a.base == Base::None {
                            x.copy_from_slice(&a.off[*j as usize * 8..*j as usize * 8 + 8]);
                        } else {
                            let o = self.opaque(&format!("addr{:?}", a.base), pw());
                            let o = self.b.vadd(&o, &a.off, F).0;
                            x.copy_from_slice(&o[*j as usize * 8..*j as usize * 8 + 8]);
                        }
                        r = Some(match r {
                            None => x,
                            Some(q) => {
                                let mut y = [F; 8];
                                for i in 0..8 {
                                    y[i] = self.b.ite(a.g, x[i], q[i]);
                                }
                                y
                            }
                        });
                    }
                    v.extend_from_slice(&r.unwrap_or([F; 8]));
                }
            }
        }
        v
    }
    pub fn load(&mut self, st: &State, ty: &Ty, p: &Val) -> Val {
        self.loads += 1;
        let p = self.as_ptr(p);
        let mut res: Option<Val> = None;
        let mut last_g = F;
        let n = ty.store_size();
        for a in p.iter() {
            let pc = self.b.and(st.g, a.g);
            if pc == F {
                continue;
            }
            let v = match &a.base {
                Base::Obj(o) => {
                    if let ObjKind::Input(r) = self.objs[*o as usize].0 {
                        let mut cells = Vec::with_capacity(n);
                        for k in 0..n {
                            let kk = vconst(k as u128, pw());
                            let off = if k == 0 { a.off.clone() } else { self.b.vadd(&a.off, &kk, F).0 };
                            cells.push(Cell::B(self.input_byte(r, &off, pc)));
                        }
                        self.read_cells(&cells, 0, ty, pc)
                    } else if let Some(cells) = self.cells_of(st, *o) {
                        let off = self.simp(&a.off, pc);
                        match as_const(&off) {
                            Some(k) => {
                                if (k as usize).checked_add(n).map(|e| e <= cells.len()).unwrap_or(false) {
                                    self.read_cells(&cells, k as usize, ty, pc)
                                } else {
                                    self.undec(format!("load outside its object at {k:#x}+{n} of {} ty {ty:?}", cells.len()));
                                    Val::U
                                }
                            }
                            None => match self.b.values(&off, pc, 4096) {
                                Some(vals) => {
                                    let mut r: Option<Val> = None;
                                    for (k, g) in vals {
                                        if k as usize + n > cells.len() {
                                            continue;
                                        }
                                        let x = self.read_cells(&cells, k as usize, ty, g);
                                        r = Some(match r {
                                            None => x,
                                            Some(q) => self.merge_val(g, &x, &q),
                                        });
                                    }
                                    r.unwrap_or(Val::U)
                                }
                                None => {
                                    self.undec("load at an unbounded offset");
                                    Val::U
                                }
                            },
                        }
                    } else {
                        self.undec("load from mutable static or dead object");
                        Val::U
                    }
                }
                _ if n == 0 => Val::U,
                _ => {
                    let w = ty.bits();
                    if w > 0 {
                        self.note("load through unknown pointer");
                        Val::I(self.opaque(&format!("ld{}", self.ninst), w))
                    } else {
                        self.undec("load through unknown pointer");
                        Val::U
                    }
                }
            };
            res = Some(match res {
                None => v,
                Some(q) => self.merge_val(a.g, &v, &q),
            });
            last_g = pc;
        }
        let _ = last_g;
        res.unwrap_or(Val::U)
    }
    /// Apply `f` to the cells of every object a pointer may designate.
    fn store_at(&mut self, st: &mut State, p: &Val, n: usize, f: &mut dyn FnMut(&mut Self, &mut [Cell], usize)) {
        if n == 0 {
            return;
        }
        let p = self.as_ptr(p);
        let feas: Vec<(Alt, B)> = {
            let mut v = vec![];
            for a in p.iter() {
                let pc = self.b.and(st.g, a.g);
                if pc != F {
                    v.push((a.clone(), pc));
                }
            }
            v
        };
        let single = feas.len() == 1;
        for (a, pc) in feas {
            match &a.base {
                Base::Obj(o) => {
                    let cells = match (self.cells_of(st, *o), &self.objs[*o as usize].0) {
                        (Some(c), ObjKind::Stack) => c,
                        _ => {
                            self.undec("store to non-stack memory");
                            continue;
                        }
                    };
                    let off = self.simp(&a.off, pc);
                    let vals = match as_const(&off) {
                        Some(k) => vec![(k, pc)],
                        None => match self.b.values(&off, pc, 4096) {
                            Some(v) => v,
                            None => {
                                self.undec("store at an unbounded offset");
                                continue;
                            }
                        },
                    };
                    let strong = single && vals.len() == 1;
                    let mut cv = st.mem.remove(o).unwrap_or(cells);
                    for (k, g) in vals {
                        let k = k as usize;
                        if k + n > cv.len() {
                            self.undec("store outside its object");
                            continue;
                        }
                        let m = Rc::make_mut(&mut cv);
                        if strong {
                            f(self, m, k);
                        } else {
                            let old: Vec<Cell> = m[k..k + n].to_vec();
                            f(self, m, k);
                            for i in 0..n {
                                let nw = m[k + i].clone();
                                m[k + i] = self.merge_cell(g, &nw, &old[i]);
                            }
                        }
                    }
                    st.mem.insert(*o, cv);
                }
                _ => self.undec("store through unknown pointer"),
            }
        }
    }
    pub fn store(&mut self, st: &mut State, ty: &Ty, v: &Val, p: &Val) {
        let n = ty.store_size();
        self.store_at(st, p, n, &mut |me, cells, k| me.write_cells(cells, k, ty, v));
    }
    fn read_bytes(&mut self, st: &State, p: &Val, n: usize) -> Vec<Cell> {
        // cells of [p, p+n)
        let p = self.as_ptr(p);
        let mut res: Option<Vec<Cell>> = None;
        for a in p.iter() {
            let pc = self.b.and(st.g, a.g);
            if pc == F {
                continue;
            }
            let mut cur: Vec<Cell> = vec![Cell::U; n];
            match &a.base {
                Base::Obj(o) => {
                    if let ObjKind::Input(r) = self.objs[*o as usize].0 {
                        for k in 0..n {
                            let kk = vconst(k as u128, pw());
                            let off = self.b.vadd(&a.off, &kk, F).0;
                            cur[k] = Cell::B(self.input_byte(r, &off, pc));
                        }
                    } else if let Some(cells) = self.cells_of(st, *o) {
                        let off = self.simp(&a.off, pc);
                        match self.b.values(&off, pc, 4096) {
                            Some(vals) => {
                                let mut first = true;
                                for (k, g) in vals {
                                    let k = k as usize;
                                    if k + n > cells.len() {
                                        self.undec("copy outside its object");
                                        continue;
                                    }
                                    for i in 0..n {
                                        cur[i] = if first { cells[k + i].clone() } else { self.merge_cell(g, &cells[k + i], &cur[i].clone()) };
                                    }
                                    first = false;
                                }
                            }
                            None => self.undec("copy from an unbounded offset"),
                        }
                    } else {
                        self.undec("copy from unknown object");
                    }
                }
                _ => {
                    if n > 0 {
                        self.undec("copy through unknown pointer")
                    }
                }
            }
            res = Some(match res {
                None => cur,
                Some(q) => (0..n).map(|i| self.merge_cell(a.g, &cur[i], &q[i])).collect(),
            });
        }
        res.unwrap_or_else(|| vec![Cell::U; n])
    }
    // ------------------------------------------------------------- constants
    fn cst(&mut self, m: usize, ty: &Ty, c: &C) -> Val {
        match c {
            C::Int(x, w) => cval(*x, *w),
            C::Null => cval(0, pw()),
            C::Undef => Val::U,
            C::Zero => match ty {
                Ty::Int(w) | Ty::Float(w) => cval(0, *w),
                Ty::Ptr => cval(0, pw()),
                Ty::Struct(fs, _) => Val::A(Rc::new(fs.iter().map(|t| self.cst(m, t, &C::Zero)).collect())),
                Ty::Array(n, t) | Ty::Vec(n, t) => Val::A(Rc::new((0..*n).map(|_| self.cst(m, t, &C::Zero)).collect())),
                _ => Val::U,
            },
            C::Global(n) => {
                if self.prog.func(m, n).is_some() || self.prog.noreturn.contains_key(n) {
                    let z = vconst(0, pw());
                    return Val::P(self.ptr1(Base::Fn(m, n.clone()), z));
                }
                match self.global_obj(m, n) {
                    Some(o) => {
                        let z = vconst(0, pw());
                        Val::P(self.ptr1(Base::Obj(o), z))
                    }
                    None => {
                        let z = vconst(0, pw());
                        Val::P(self.ptr1(Base::Fn(m, n.clone()), z))
                    }
                }
            }
            C::GepC(b, off) => {
                let v = self.cst(m, &Ty::Ptr, b);
                let p = self.as_ptr(&v);
                let d = vconst(*off as u64 as u128, pw());
                let alts = p.iter().map(|a| Alt { g: a.g, base: a.base.clone(), off: self.b.vadd(&a.off, &d, F).0 }).collect();
                self.norm(alts)
            }
            C::IntToPtr(b) | C::PtrToInt(b) => {
                let v = self.cst(m, &Ty::Int(pw()), b);
                match ty {
                    Ty::Int(w) if *w != pw() => {
                        if *w % 8 == 0 {
                            let mut c = self.to_cells(&v, pb());
                            c.resize(w / 8, Cell::B([F; 8]));
                            self.mkc(&c, *w, T)
                        } else {
                            Val::I(self.bits(&v, *w))
                        }
                    }
                    _ => v,
                }
            }
            C::Agg(v) => Val::A(Rc::new(v.iter().map(|(t, c)| self.cst(m, t, c)).collect())),
            C::Bytes(v) => Val::A(Rc::new(v.iter().map(|x| cval(*x as u128, 8)).collect())),
            C::Other(s) => {
                self.undec(format!("constant {s}"));
                Val::U
            }
        }
    }
    fn op(&mut self, f: &Func, fr: &Frame, ty: &Ty, o: &Op) -> Val {
        match o {
            Op::L(i) => match &fr.env[*i] {
                Some(v) => v.clone(),
                None => Val::U,
            },
            Op::K(c) => self.cst(f.module, ty, c),
        }
    }
    fn bits(&mut self, v: &Val, w: usize) -> V {
        match v {
            Val::I(x) => {
                if x.len() == w {
                    x.clone()
                } else {
                    zext(x, w)
                }
            }
            Val::U => vconst(0, w),
            Val::C(c) => {
                let c = c.clone();
                let v: V = self.cell_bits(&c, T).into();
                zext(&v, w)
            }
            Val::P(p) => {
                let p = p.clone();
                let mut r: Option<V> = None;
                for a in p.iter() {
                    let x: V = if a.base == Base::None {
                        zext(&a.off, w)
                    } else {
                        let base = self.opaque(&format!("addr{:?}", a.base), pw());
                        let s = self.b.vadd(&base, &a.off, F).0;
                        zext(&s, w)
                    };
                    r = Some(match r {
                        None => x,
                        Some(q) => self.b.vite(a.g, &x, &q),
                    });
                }
                r.unwrap_or_else(|| vconst(0, w))
            }
            Val::A(xs) => {
                // vector bitcast: concatenate
                let xs = xs.clone();
                let mut v = vec![];
                let order: Vec<&Val> = if be() { xs.iter().rev().collect() } else { xs.iter().collect() };
                for x in order {
                    match x {
                        Val::I(b) => v.extend_from_slice(b),
                        _ => {}
                    }
                }
                zext(&v, w)
            }
        }
    }
    // ------------------------------------------------------------- control
    fn info(&mut self, f: &Rc<Func>) -> Rc<FInfo> {
        let k = Rc::as_ptr(f);
        if let Some(i) = self.infos.get(&k) {
            return i.clone();
        }
        let i = Rc::new(compute_info(f));
        self.infos.insert(k, i.clone());
        i
    }
    fn merge_state(&mut self, g: B, a: &State, b: &State) -> State {
        // g is the guard of a
        let gg = self.b.or(a.g, b.g);
        let mut mem = Mem::new();
        for (o, ca) in &a.mem {
            if let Some(cb) = b.mem.get(o) {
                if Rc::ptr_eq(ca, cb) {
                    mem.insert(*o, ca.clone());
                } else {
                    let v: Vec<Cell> = (0..ca.len()).map(|i| self.merge_cell(g, &ca[i], &cb[i])).collect();
                    mem.insert(*o, Rc::new(v));
                }
            } else {
                mem.insert(*o, ca.clone());
            }
        }
        for (o, cb) in &b.mem {
            if !a.mem.contains_key(o) {
                mem.insert(*o, cb.clone());
            }
        }
        State { g: gg, mem }
    }
    fn merge_frame(&mut self, a: Frame, b: Frame, live: &[u64]) -> Frame {
        let g = a.st.g;
        let st = self.merge_state(g, &a.st, &b.st);
        let mut env = vec![None; a.env.len()];
        for i in 0..a.env.len() {
            if live[i / 64] >> (i % 64) & 1 == 0 {
                continue;
            }
            env[i] = match (&a.env[i], &b.env[i]) {
                (Some(x), Some(y)) => Some(self.merge_val(g, x, y)),
                (Some(x), None) | (None, Some(x)) => Some(x.clone()),
                _ => None,
            };
        }
        Frame { st, env }
    }
    /// `same_frame` with little effort: what needs a large diagram is given up.
    fn same_within(&mut self, a: &Frame, b: &Frame, live: &[u64]) -> B {
        if self.loop_nodes > 4_000_000 {
            return F;
        }
        let before = self.b.size();
        let (old, limit) = (self.b.limit, before + 50_000);
        self.b.limit = limit.min(old);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.same_frame(a, b, live)));
        self.b.limit = old;
        self.loop_nodes += self.b.size() - before;
        match r {
            Ok(d) => d,
            Err(e) if limit >= old || !matches!(e.downcast_ref::<Budget>(), Some(Budget(m)) if m.contains("node")) => std::panic::resume_unwind(e),
            Err(_) => F,
        }
    }
    /// Inputs for which both frames are the same concrete state: everything after the first leads
    /// back to it, for ever.
    fn same_frame(&mut self, a: &Frame, b: &Frame, live: &[u64]) -> B {
        let g = self.b.and(a.st.g, b.st.g);
        if g == F || a.st.mem.len() != b.st.mem.len() {
            return F;
        }
        let mut vals = vec![];
        for i in 0..a.env.len() {
            if live[i / 64] >> (i % 64) & 1 == 0 {
                continue;
            }
            match (&a.env[i], &b.env[i]) {
                (Some(x), Some(y)) => {
                    if !Self::may_equal(x, y) {
                        return F;
                    }
                    vals.push((x, y));
                }
                (None, None) => {}
                _ => return F,
            }
        }
        let mut cells = vec![];
        for ((o, x), (q, y)) in a.st.mem.iter().zip(b.st.mem.iter()) {
            if o != q || x.len() != y.len() {
                return F;
            }
            if Rc::ptr_eq(x, y) {
                continue;
            }
            for (p, q) in x.iter().zip(y.iter()) {
                if let (Cell::B(p), Cell::B(q)) = (p, q) {
                    if p == q {
                        continue;
                    }
                    if p.iter().zip(q.iter()).any(|(m, n)| m != n && *m <= 1 && *n <= 1) {
                        return F;
                    }
                }
                cells.push((p, q));
            }
        }
        let mut d = g;
        for (x, y) in vals {
            d = self.eq_val(x, y, d);
            if d == F {
                return F;
            }
        }
        for (x, y) in cells {
            d = self.eq_cell(x, y, d);
            if d == F {
                return F;
            }
        }
        d
    }
    fn may_equal(a: &Val, b: &Val) -> bool {
        match (a, b) {
            (Val::I(x), Val::I(y)) => x.len() == y.len() && !x.iter().zip(y.iter()).any(|(m, n)| m != n && *m <= 1 && *n <= 1),
            (Val::A(x), Val::A(y)) => x.len() == y.len() && x.iter().zip(y.iter()).all(|(p, q)| Self::may_equal(p, q)),
            (Val::P(x), Val::P(y)) => x.iter().any(|p| y.iter().any(|q| p.base == q.base && !p.off.iter().zip(q.off.iter()).any(|(m, n)| m != n && *m <= 1 && *n <= 1))),
            (Val::C(_), Val::C(_)) | (Val::U, Val::U) => true,
            _ => false,
        }
    }
    fn eq_bits(&mut self, a: &[B], b: &[B], mut g: B) -> B {
        if a.len() != b.len() {
            return F;
        }
        // a counter differs in its low bits
        for i in 0..a.len() {
            if a[i] != b[i] {
                let (x, y) = (self.b.restrict(a[i], g), self.b.restrict(b[i], g));
                let d = self.b.xor(x, y);
                g = self.b.and_not(g, d);
                if g == F {
                    break;
                }
            }
        }
        g
    }
    fn eq_ptr(&mut self, a: &Ptr, b: &Ptr, g: B) -> B {
        if Rc::ptr_eq(a, b) || a == b {
            return g;
        }
        let mut r = F;
        for p in a.iter() {
            for q in b.iter() {
                if p.base == q.base {
                    let h = self.b.and(p.g, q.g);
                    let h = self.b.and(h, g);
                    if h != F {
                        let h = self.eq_bits(&p.off, &q.off, h);
                        r = self.b.or(r, h);
                    }
                }
            }
        }
        r
    }
    fn eq_val(&mut self, a: &Val, b: &Val, g: B) -> B {
        match (a, b) {
            (Val::I(x), Val::I(y)) => self.eq_bits(x, y, g),
            (Val::P(x), Val::P(y)) => self.eq_ptr(x, y, g),
            (Val::A(x), Val::A(y)) if x.len() == y.len() => {
                let mut g = g;
                for (p, q) in x.iter().zip(y.iter()) {
                    g = self.eq_val(p, q, g);
                }
                g
            }
            (Val::C(x), Val::C(y)) if x.len() == y.len() => {
                let mut g = g;
                for (p, q) in x.iter().zip(y.iter()) {
                    g = self.eq_cell(p, q, g);
                }
                g
            }
            (Val::U, Val::U) => g,
            _ => F,
        }
    }
    fn eq_cell(&mut self, a: &Cell, b: &Cell, g: B) -> B {
        if g == F {
            return F;
        }
        match (a, b) {
            (Cell::U, Cell::U) => g,
            (Cell::B(x), Cell::B(y)) => self.eq_bits(x, y, g),
            (Cell::P(x, k), Cell::P(y, l)) if k == l => self.eq_ptr(x, y, g),
            (Cell::M(x), Cell::M(y)) => {
                let mut r = F;
                for (gx, cx) in x.iter() {
                    for (gy, cy) in y.iter() {
                        let h = self.b.and(*gx, *gy);
                        let h = self.b.and(h, g);
                        let h = self.eq_cell(cx, cy, h);
                        r = self.b.or(r, h);
                    }
                }
                r
            }
            _ => F,
        }
    }
    /// Interpret a call; returns the state after it (guard false if it cannot return).
    pub fn call(&mut self, f: &Rc<Func>, args: Vec<Val>, st: State) -> (State, Val) {
        if self.stack.len() > 120 {
            self.undec("call depth");
            return (State { g: F, mem: st.mem }, Val::U);
        }
        if self.stack.iter().filter(|x| **x == f.name).count() > 20 {
            self.undec("recursion");
            return (State { g: F, mem: st.mem }, Val::U);
        }
        self.visited.insert(f.name.clone());
        self.stack.push(f.name.clone());
        let info = self.info(f);
        let nb = f.blocks.len();
        let first_obj = self.objs.len() as u32;
        let mut env = vec![None; f.nlocals];
        for (k, (_, ix)) in f.params.iter().enumerate() {
            env[*ix] = args.get(k).cloned();
        }
        let mut pending: Vec<Option<Frame>> = (0..nb).map(|_| None).collect();
        let mut queue: BTreeSet<(usize, usize)> = BTreeSet::new();
        pending[0] = Some(Frame { st, env });
        queue.insert((info.order[0], 0));
        let mut ret: Option<(State, Val)> = None;
        let mut watch: HashMap<usize, Watch> = HashMap::new();
        while let Some((pos, bi)) = queue.pop_first() {
            let _ = pos;
            let mut fr = match pending[bi].take() {
                Some(f) => f,
                None => continue,
            };
            if fr.st.g == F {
                continue;
            }
            self.visits += 1;
            if self.visits > self.visit_cap || (self.visits % 64 == 0 && self.started.elapsed().as_secs_f64() > self.time_cap) {
                std::panic::panic_any(Budget("block visits / time"));
            }
            if info.head[bi] {
                let w = watch.entry(bi).or_insert(Watch { count: 0, next: 4, snap: None });
                w.count += 1;
                if let Some(old) = w.snap.take() {
                    let d = self.same_within(&old, &fr, &info.live_in[bi]);
                    w.snap = Some(old);
                    if d != F {
                        self.loops.push((d, demangle(&f.name)));
                        fr.st.g = self.b.and_not(fr.st.g, d);
                    }
                }
                if w.count == w.next {
                    w.next *= 2;
                    w.snap = Some(fr.clone());
                }
                if fr.st.g == F {
                    continue;
                }
            }
            let blk = &f.blocks[bi];
            let mut dead = false;
            for inst in &blk.insts {
                if let I::Phi(..) = inst.i {
                    continue;
                }
                self.ninst += 1;
                self.cur_g = fr.st.g;
                let v = self.exec(f, &mut fr, &inst.i);
                if fr.st.g == F {
                    dead = true;
                    break;
                }
                if let Some(d) = inst.dst {
                    fr.env[d] = Some(v);
                }
            }
            if dead {
                continue;
            }
            let mut edges: Vec<(B, usize)> = vec![];
            match &blk.term {
                Term::Br(t) => edges.push((fr.st.g, *t)),
                Term::Cond(c, a, b) => {
                    let cv = self.op(f, &fr, &Ty::Int(1), c);
                    let c = self.bits(&cv, 1)[0];
                    let ga = self.b.and(fr.st.g, c);
                    let gb = self.b.and_not(fr.st.g, c);
                    edges.push((ga, *a));
                    edges.push((gb, *b));
                }
                Term::Switch(ty, o, d, cs) => {
                    let w = ty.bits();
                    let v = self.op(f, &fr, ty, o);
                    let v = self.bits(&v, w);
                    let mut rest = fr.st.g;
                    for (k, t) in cs {
                        let kk = vconst(*k, w);
                        let e = self.b.veq(&v, &kk);
                        let g = self.b.and(fr.st.g, e);
                        rest = self.b.and_not(rest, e);
                        edges.push((g, *t));
                    }
                    edges.push((rest, *d));
                }
                Term::Ret(v) => {
                    let v = match v {
                        Some((t, o)) => self.op(f, &fr, t, o),
                        None => Val::U,
                    };
                    ret = Some(match ret {
                        None => (fr.st, v),
                        Some((s0, v0)) => {
                            let g = s0.g;
                            let vv = self.merge_val(g, &v0, &v);
                            (self.merge_state(g, &s0, &fr.st), vv)
                        }
                    });
                    continue;
                }
                Term::Unreachable | Term::None => continue,
            }
            // join edges to the same target first
            let mut tgt: Vec<(usize, B)> = vec![];
            for (g, t) in edges {
                if g == F {
                    continue;
                }
                if let Some(e) = tgt.iter_mut().find(|e| e.0 == t) {
                    e.1 = self.b.or(e.1, g);
                } else {
                    tgt.push((t, g));
                }
            }
            let n = tgt.len();
            let mut fr = Some(fr);
            for (k, (t, g)) in tgt.into_iter().enumerate() {
                let mut nf = if k + 1 == n { fr.take().unwrap() } else { fr.as_ref().unwrap().clone() };
                nf.st.g = g;
                // phis
                let mut upd = vec![];
                for inst in &f.blocks[t].insts {
                    match &inst.i {
                        I::Phi(ty, ins) => {
                            if let Some((o, _)) = ins.iter().find(|x| x.1 == bi) {
                                let v = self.op(f, &nf, ty, o);
                                upd.push((inst.dst.unwrap(), v));
                            }
                        }
                        _ => break,
                    }
                }
                for (d, v) in upd {
                    nf.env[d] = Some(v);
                }
                let live = &info.live_in[t];
                pending[t] = Some(match pending[t].take() {
                    None => nf,
                    Some(old) => self.merge_frame(old, nf, live),
                });
                queue.insert((info.order[t], t));
            }
        }
        self.stack.pop();
        match ret {
            None => (State { g: F, mem: Mem::new() }, Val::U),
            Some((mut s, v)) => {
                // drop this activation's stack objects
                let dead: Vec<u32> = s.mem.range(first_obj..).map(|x| *x.0).collect();
                for d in dead {
                    if matches!(self.objs[d as usize].0, ObjKind::Stack) {
                        s.mem.remove(&d);
                    }
                }
                (s, v)
            }
        }
    }
    fn exec(&mut self, f: &Rc<Func>, fr: &mut Frame, i: &I) -> Val {
        match i {
            I::Alloca(n) => {
                let o = self.objs.len() as u32;
                self.objs.push((ObjKind::Stack, *n));
                fr.st.mem.insert(o, Rc::new(vec![Cell::U; *n]));
                let z = vconst(0, pw());
                Val::P(self.ptr1(Base::Obj(o), z))
            }
            I::Load(ty, p) => {
                let p = self.op(f, fr, &Ty::Ptr, p);
                self.load(&fr.st, ty, &p)
            }
            I::Store(ty, v, p) => {
                let v = self.op(f, fr, ty, v);
                let p = self.op(f, fr, &Ty::Ptr, p);
                let mut st = std::mem::replace(&mut fr.st, State { g: F, mem: Mem::new() });
                self.store(&mut st, ty, &v, &p);
                fr.st = st;
                Val::U
            }
            I::Gep(b, off, vars) => {
                let bv = self.op(f, fr, &Ty::Ptr, b);
                let p = self.as_ptr(&bv);
                let mut d = vconst(*off as u64 as u128, pw());
                for (ix, ty, sc) in vars {
                    let v = self.op(f, fr, ty, ix);
                    let w = ty.bits();
                    let x = self.bits(&v, w);
                    let x = sext_v(&x, pw());
                    let s = vconst(*sc as u64 as u128, pw());
                    let m = self.b.vmul(&x, &s);
                    d = self.b.vadd(&d, &m, F).0;
                }
                let alts = p.iter().map(|a| Alt { g: a.g, base: a.base.clone(), off: self.b.vadd(&a.off, &d, F).0 }).collect();
                self.norm(alts)
            }
            I::Bin(op, ty, a, b) => {
                let x = self.op(f, fr, ty, a);
                let y = self.op(f, fr, ty, b);
                self.bin_ty(op, ty, &x, &y, fr.st.g)
            }
            I::Cast(k, from, a, to) => {
                let x = self.op(f, fr, from, a);
                self.cast(k, from, &x, to)
            }
            I::Icmp(p, ty, a, b) => {
                let x = self.op(f, fr, ty, a);
                let y = self.op(f, fr, ty, b);
                self.icmp_ty(p, ty, &x, &y, fr.st.g)
            }
            I::Select(ct, c, ty, a, b) => {
                let c = self.op(f, fr, ct, c);
                let x = self.op(f, fr, ty, a);
                let y = self.op(f, fr, ty, b);
                if let (Val::A(cs), Val::A(xs), Val::A(ys)) = (&c, &x, &y) {
                    let v = (0..cs.len())
                        .map(|i| {
                            let c = self.bits(&cs[i], 1)[0];
                            self.merge_val(c, &xs[i], &ys[i])
                        })
                        .collect();
                    return Val::A(Rc::new(v));
                }
                let c = self.bits(&c, 1)[0];
                match c {
                    T => x,
                    F => y,
                    _ => {
                        // undef arms keep the other value only where that is the only choice
                        self.merge_val(c, &x, &y)
                    }
                }
            }
            I::Extract(ty, a, ix) => {
                let mut v = self.op(f, fr, ty, a);
                for i in ix {
                    v = match v {
                        Val::A(xs) => xs.get(*i).cloned().unwrap_or(Val::U),
                        _ => Val::U,
                    };
                }
                v
            }
            I::Insert(ty, a, vt, v, ix) => {
                let base = self.op(f, fr, ty, a);
                let x = self.op(f, fr, vt, v);
                insert(base, ty, &x, ix)
            }
            I::Freeze(ty, a) => self.op(f, fr, ty, a),
            I::Phi(..) => Val::U,
            I::Opaque(name, ops, ty) => {
                let vs: Vec<Val> = ops.iter().map(|(t, o)| self.op(f, fr, t, o)).collect();
                if name == "shufflevector" {
                    if let (Val::A(x), Val::A(m)) = (&vs[0], &vs[2]) {
                        let n = x.len();
                        let out = m
                            .iter()
                            .map(|k| match k {
                                Val::I(b) => match as_const(b) {
                                    Some(k) if (k as usize) < n => x[k as usize].clone(),
                                    Some(k) => match &vs[1] {
                                        Val::A(y) => y.get(k as usize - n).cloned().unwrap_or(Val::U),
                                        _ => Val::U,
                                    },
                                    None => Val::U,
                                },
                                _ => Val::U,
                            })
                            .collect();
                        return Val::A(Rc::new(out));
                    }
                }
                if let Some(v) = self.float_op(name, ops, &vs, ty, fr.st.g) {
                    return v;
                }
                let mut key = name.clone();
                for (v, (t, _)) in vs.iter().zip(ops) {
                    let b = self.bits(v, t.bits());
                    key.push_str(&format!("|{b:?}"));
                }
                let w = ty.bits();
                if w == 0 {
                    return Val::U;
                }
                Val::I(self.opaque(&key, w))
            }
            I::Call(ret, callee, args, _) => {
                let av: Vec<Val> = args.iter().map(|(t, o)| self.op(f, fr, t, o)).collect();
                let cv = self.op(f, fr, &Ty::Ptr, callee);
                let p = self.as_ptr(&cv);
                let feas: Vec<Alt> = p.iter().filter(|a| self.b.and(a.g, fr.st.g) != F).cloned().collect();
                if feas.len() != 1 {
                    if feas.len() > 64 || !feas.iter().all(|a| matches!(a.base, Base::Fn(..))) {
                        self.undec("indirect call with several targets");
                        return Val::U;
                    }
                    // every target on its own, then together again
                    let mut done: Option<(State, Val)> = None;
                    for a in &feas {
                        let (m, n) = match &a.base {
                            Base::Fn(m, n) => (*m, n.clone()),
                            _ => continue,
                        };
                        let g = self.b.and(a.g, fr.st.g);
                        let mut one = fr.clone();
                        one.st.g = g;
                        self.cur_g = g;
                        let v = self.do_call(m, &n, ret, args, av.clone(), &mut one);
                        if one.st.g == F {
                            continue;
                        }
                        done = Some(match done {
                            None => (one.st, v),
                            Some((s, w)) => {
                                let v = self.merge_val(s.g, &w, &v);
                                let g = s.g;
                                (self.merge_state(g, &s, &one.st), v)
                            }
                        });
                    }
                    return match done {
                        Some((s, v)) => {
                            fr.st = s;
                            v
                        }
                        None => {
                            fr.st.g = F;
                            Val::U
                        }
                    };
                }
                match &feas[0].base {
                    Base::Fn(m, n) => {
                        let n = n.clone();
                        self.do_call(*m, &n, ret, args, av, fr)
                    }
                    _ => {
                        self.undec("indirect call");
                        Val::U
                    }
                }
            }
        }
    }
    fn bin_ty(&mut self, op: &str, ty: &Ty, x: &Val, y: &Val, g: B) -> Val {
        if let Ty::Vec(n, t) = ty {
            let v = (0..*n)
                .map(|i| {
                    let a = elem(x, i);
                    let b = elem(y, i);
                    self.bin_ty(op, t, &a, &b, g)
                })
                .collect();
            return Val::A(Rc::new(v));
        }
        let w = ty.bits();
        // pointer arithmetic carried through integers
        if w == pw() && (matches!(x, Val::P(_)) || matches!(y, Val::P(_))) {
            if let Some(v) = self.ptr_bin(op, x, y, g) {
                return v;
            }
        }
        if w % 8 == 0 && (matches!(x, Val::C(_) | Val::P(_)) || matches!(y, Val::C(_) | Val::P(_))) {
            if let Some(v) = self.cell_bin(op, w, x, y, g) {
                return v;
            }
        }
        let a = self.bits(x, w);
        let c = self.bits(y, w);
        Val::I(self.bin(op, &a, &c))
    }
    /// Floating-point operations on operands with few possible values: case by case.
    fn float_op(&mut self, name: &str, ops: &[(Ty, Op)], vs: &[Val], to: &Ty, g: B) -> Option<Val> {
        let op = name.split(' ').next().unwrap();
        if !matches!(op, "fadd" | "fsub" | "fmul" | "fdiv" | "uitofp" | "sitofp" | "fpext" | "fptrunc" | "fcmp") {
            return None;
        }
        let w = match to {
            Ty::Float(w) => *w,
            Ty::Int(1) if op == "fcmp" => 1,
            _ => return None,
        };
        let mut cases: Vec<(Vec<u128>, B)> = vec![(vec![], g)];
        for (v, (t, _)) in vs.iter().zip(ops) {
            let b = self.bits(v, t.bits());
            let mut nx = vec![];
            for (xs, h) in cases {
                for (x, hx) in self.b.values(&b, h, 1 << 12)? {
                    let mut ys = xs.clone();
                    ys.push(x);
                    nx.push((ys, hx));
                }
                if nx.len() > 1 << 13 {
                    return None;
                }
            }
            cases = nx;
        }
        let fw = ops[0].0.bits();
        let get = |x: u128| if fw == 32 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x as u64) };
        let mut out: Option<V> = None;
        for (xs, h) in cases {
            let r: u128 = match op {
                "uitofp" => if w == 32 { (xs[0] as f32).to_bits() as u128 } else { (xs[0] as f64).to_bits() as u128 },
                "sitofp" => {
                    let k = 128 - fw as u32;
                    let x = ((xs[0] << k) as i128) >> k;
                    if w == 32 { (x as f32).to_bits() as u128 } else { (x as f64).to_bits() as u128 }
                }
                "fpext" | "fptrunc" => if w == 32 { (get(xs[0]) as f32).to_bits() as u128 } else { get(xs[0]).to_bits() as u128 },
                "fcmp" => {
                    let (a, b) = (get(xs[0]), get(xs[1]));
                    let p = name.rsplit(' ').next().unwrap();
                    let nan = a.is_nan() || b.is_nan();
                    let r = match p.get(1..) {
                        Some("eq") => a == b,
                        Some("ne") => a != b && !nan,
                        Some("lt") => a < b,
                        Some("le") => a <= b,
                        Some("gt") => a > b,
                        Some("ge") => a >= b,
                        _ => return None,
                    };
                    (r || p.starts_with('u') && nan) as u128
                }
                _ if w == 32 => {
                    let (a, b) = (f32::from_bits(xs[0] as u32), f32::from_bits(xs[1] as u32));
                    (match op { "fadd" => a + b, "fsub" => a - b, "fmul" => a * b, _ => a / b }).to_bits() as u128
                }
                _ => {
                    let (a, b) = (f64::from_bits(xs[0] as u64), f64::from_bits(xs[1] as u64));
                    (match op { "fadd" => a + b, "fsub" => a - b, "fmul" => a * b, _ => a / b }).to_bits() as u128
                }
            };
            let r = vconst(r, w);
            out = Some(match out {
                None => r,
                Some(q) => self.b.vite(h, &r, &q),
            });
        }
        out.map(Val::I)
    }
    /// Shifts by whole bytes and disjoint ors move pointer bytes about unchanged.
    fn cell_bin(&mut self, op: &str, w: usize, x: &Val, y: &Val, g: B) -> Option<Val> {
        let n = w / 8;
        let zero = |c: &Cell| matches!(c, Cell::U) || matches!(c, Cell::B(b) if b.iter().all(|z| *z == F));
        match op {
            "shl" | "lshr" => {
                let k = match y {
                    Val::I(v) => as_const(v)? as usize,
                    _ => return None,
                };
                if k % 8 != 0 || k >= w {
                    return None;
                }
                let k = k / 8;
                let c = self.to_cells(x, n);
                let mut r = vec![Cell::B([F; 8]); n];
                for i in 0..n {
                    if op == "shl" {
                        if i >= k {
                            r[i] = c[i - k].clone();
                        }
                    } else if i + k < n {
                        r[i] = c[i + k].clone();
                    }
                }
                Some(self.mkc(&r, w, g))
            }
            "or" | "xor" | "add" => {
                let a = self.to_cells(x, n);
                let b = self.to_cells(y, n);
                let mut r = vec![];
                for (p, q) in a.iter().zip(b.iter()) {
                    r.push(if zero(p) {
                        q.clone()
                    } else if zero(q) {
                        p.clone()
                    } else if let (Cell::B(u), Cell::B(v), false) = (p, q, op == "add") {
                        let mut z = [F; 8];
                        for i in 0..8 {
                            z[i] = if op == "or" { self.b.or(u[i], v[i]) } else { self.b.xor(u[i], v[i]) };
                        }
                        Cell::B(z)
                    } else {
                        return None;
                    });
                }
                Some(self.mkc(&r, w, g))
            }
            "and" => {
                let (x, m) = if let Val::I(v) = y { (x, as_const(v)?) } else if let Val::I(v) = x { (y, as_const(v)?) } else { return None };
                let c = self.to_cells(x, n);
                let mut r = vec![];
                for (i, p) in c.iter().enumerate() {
                    let k = (m >> (8 * i)) as u8;
                    r.push(match (p, k) {
                        (_, 0) => Cell::B([F; 8]),
                        (p, 255) => p.clone(),
                        (Cell::B(u), k) => {
                            let mut z = *u;
                            for j in 0..8 {
                                if k >> j & 1 == 0 {
                                    z[j] = F
                                }
                            }
                            Cell::B(z)
                        }
                        _ => return None,
                    });
                }
                Some(self.mkc(&r, w, g))
            }
            _ => None,
        }
    }
    fn feasible(&mut self, p: &Ptr, g: B) -> Vec<Alt> {
        let mut v: Vec<Alt> = p.iter().filter(|a| self.b.and(a.g, g) != F).cloned().collect();
        if v.len() == 1 {
            v[0].g = T;
        }
        v
    }
    fn ptr_bin(&mut self, op: &str, x: &Val, y: &Val, g: B) -> Option<Val> {
        let px = self.as_ptr(x);
        let py = self.as_ptr(y);
        let ax = self.feasible(&px, g);
        let ay = self.feasible(&py, g);
        let mut out: Option<Ptr> = None;
        for a in &ax {
            for b in &ay {
                let gg = self.b.and(a.g, b.g);
                if self.b.and(gg, g) == F {
                    continue;
                }
                let r: Ptr = match op {
                    "sub" if a.base == b.base => {
                        let d = self.b.vsub(&a.off, &b.off).0;
                        self.ptr1(Base::None, d)
                    }
                    "sub" if b.base == Base::None => {
                        let d = self.b.vsub(&a.off, &b.off).0;
                        self.ptr1(a.base.clone(), d)
                    }
                    "add" if b.base == Base::None => {
                        let d = self.b.vadd(&a.off, &b.off, F).0;
                        self.ptr1(a.base.clone(), d)
                    }
                    "add" if a.base == Base::None => {
                        let d = self.b.vadd(&a.off, &b.off, F).0;
                        self.ptr1(b.base.clone(), d)
                    }
                    _ if a.base == Base::None && b.base == Base::None => {
                        let d = self.bin(op, &a.off, &b.off);
                        self.ptr1(Base::None, d)
                    }
                    _ => return None,
                };
                out = Some(match out {
                    None => r,
                    Some(q) => self.merge_ptr(gg, &r, &q),
                });
            }
        }
        out.map(|p| self.norm((*p).clone()))
    }
    fn bin(&mut self, op: &str, a: &V, c: &V) -> V {
        match op {
            "add" => self.b.vadd(a, c, F).0,
            "sub" => self.b.vsub(a, c).0,
            "mul" => self.b.vmul(a, c),
            "and" => (0..a.len()).map(|i| self.b.and(a[i], c[i])).collect(),
            "or" => (0..a.len()).map(|i| self.b.or(a[i], c[i])).collect(),
            "xor" => (0..a.len()).map(|i| self.b.xor(a[i], c[i])).collect(),
            "shl" => self.b.vshift(a, c, true, F),
            "lshr" => self.b.vshift(a, c, false, F),
            "ashr" => {
                let s = a[a.len() - 1];
                self.b.vshift(a, c, false, s)
            }
            "udiv" => self.b.vudivrem(a, c).0,
            "urem" => self.b.vudivrem(a, c).1,
            _ => {
                let key = format!("{op}|{a:?}|{c:?}");
                self.opaque(&key, a.len())
            }
        }
    }
    fn cast(&mut self, k: &str, from: &Ty, x: &Val, to: &Ty) -> Val {
        if let (Ty::Vec(n, t), Ty::Vec(n2, t2)) = (from, to) {
            if n == n2 {
                let v = (0..*n).map(|i| { let e = elem(x, i); self.cast(k, t, &e, t2) }).collect();
                return Val::A(Rc::new(v));
            }
        }
        if matches!(x, Val::U) {
            return Val::U;
        }
        if let Ty::Vec(n, t) = to {
            let w = t.bits();
            let b = self.bits(x, n * w);
            return Val::A(Rc::new((0..*n).map(|i| if be() { n - 1 - i } else { i }).map(|i| Val::I(b[i * w..(i + 1) * w].to_vec().into())).collect()));
        }
        let w = to.bits();
        match k {
            "ptrtoint" | "inttoptr" | "bitcast" | "ptrtoaddr" if w == pw() && !matches!(x, Val::A(_)) => {
                if let Val::I(v) = x {
                    return Val::I(zext(v, pw()));
                }
                x.clone()
            }
            "trunc" | "zext" if w % 8 == 0 && from.bits() % 8 == 0 && matches!(x, Val::C(_) | Val::P(_)) => {
                let mut c = self.to_cells(x, (from.bits() / 8) as usize);
                c.resize((w / 8) as usize, Cell::B([F; 8]));
                self.mkc(&c, w, T)
            }
            "sext" => {
                let b = self.bits(x, from.bits());
                Val::I(sext_v(&b, w))
            }
            _ => {
                let fw = from.bits();
                let b = self.bits(x, fw);
                Val::I(zext(&b, w))
            }
        }
    }
    fn icmp_ty(&mut self, p: &str, ty: &Ty, x: &Val, y: &Val, g: B) -> Val {
        if let Ty::Vec(n, t) = ty {
            let v = (0..*n)
                .map(|i| {
                    let a = elem(x, i);
                    let b = elem(y, i);
                    self.icmp_ty(p, t, &a, &b, g)
                })
                .collect();
            return Val::A(Rc::new(v));
        }
        let w = ty.bits();
        if w == pw() && (matches!(x, Val::P(_)) || matches!(y, Val::P(_))) {
            let px = self.as_ptr(x);
            let py = self.as_ptr(y);
            let ax = self.feasible(&px, g);
            let ay = self.feasible(&py, g);
            let mut r = F;
            for a in &ax {
                for b in &ay {
                    let gg = self.b.and(a.g, b.g);
                    if self.b.and(gg, g) == F {
                        continue;
                    }
                    let v = if a.base == b.base {
                        self.icmp(p, &a.off, &b.off)
                    } else {
                        // an object address versus null / a small integer / another object
                        match p {
                            "eq" => F,
                            "ne" => T,
                            "ugt" | "uge" if b.base == Base::None && as_const(&b.off).map(|k| k < 4096).unwrap_or(false) => T,
                            "ult" | "ule" if b.base == Base::None && as_const(&b.off).map(|k| k < 4096).unwrap_or(false) => F,
                            "ult" | "ule" if a.base == Base::None && as_const(&a.off).map(|k| k < 4096).unwrap_or(false) => T,
                            _ => {
                                self.note("comparison of unrelated addresses");
                                self.opaque(&format!("cmp{}", self.ninst), 1)[0]
                            }
                        }
                    };
                    let t = self.b.and(gg, v);
                    r = self.b.or(r, t);
                }
            }
            return Val::I(vec![r].into());
        }
        let a = self.bits(x, w);
        let c = self.bits(y, w);
        let r = match p {
            "eq" => self.b.veq_in(&a, &c, g),
            "ne" => {
                let e = self.b.veq_in(&a, &c, g);
                self.b.not(e)
            }
            _ => self.icmp(p, &a, &c),
        };
        Val::I(vec![r].into())
    }
    pub fn icmp(&mut self, p: &str, a: &V, c: &V) -> B {
        match p {
            "eq" => self.b.veq(a, c),
            "ne" => {
                let e = self.b.veq(a, c);
                self.b.not(e)
            }
            "ult" => self.b.vult(a, c),
            "ugt" => self.b.vult(c, a),
            "ule" => {
                let e = self.b.vult(c, a);
                self.b.not(e)
            }
            "uge" => {
                let e = self.b.vult(a, c);
                self.b.not(e)
            }
            "slt" => self.b.vslt(a, c),
            "sgt" => self.b.vslt(c, a),
            "sle" => {
                let e = self.b.vslt(c, a);
                self.b.not(e)
            }
            _ => {
                let e = self.b.vslt(a, c);
                self.b.not(e)
            }
        }
    }
    // ------------------------------------------------------------- calls
    fn do_call(&mut self, m: usize, n: &Rc<str>, ret: &Ty, args: &[(Ty, Op)], av: Vec<Val>, fr: &mut Frame) -> Val {
        if let Some(x) = n.strip_prefix("llvm.") {
            return self.intrinsic(x, ret, args, av, fr);
        }
        if n.starts_with("vf_") {
            return self.harness_call(n, ret, av, fr);
        }
        if let Some(f) = self.prog.func(m, n) {
            let st = std::mem::replace(&mut fr.st, State { g: F, mem: Mem::new() });
            let (s, v) = self.call(&f, av, st);
            fr.st = s;
            return v;
        }
        if *self.prog.noreturn.get(n).unwrap_or(&false) {
            self.record_panic(n, &av, fr.st.g, &fr.st);
            fr.st.g = F;
            return Val::U;
        }
        match &**n {
            "memcpy" | "memmove" => {
                let k = self.bits(&av[2], pw());
                self.by_length(fr, &k, "memcpy", &mut |me, fr, n| me.copy(fr, &av[0], &av[1], n));
                return av[0].clone();
            }
            "bcmp" | "memcmp" => {
                let ordered = **n == *"memcmp";
                let k = self.bits(&av[2], pw());
                let k = self.simp(&k, fr.st.g);
                if let Some(k) = as_const(&k) {
                    return self.cmp_bytes(fr, &av, k as usize, ordered);
                }
                // one of a few strings each: length by length
                if !self.all_input(&av[0], fr.st.g) || !self.all_input(&av[1], fr.st.g) {
                    if let Some(vals) = self.b.values(&k, fr.st.g, 64) {
                        let g = fr.st.g;
                        let mut r: Option<V> = None;
                        for (n, gn) in vals {
                            let gn = self.b.and(gn, g);
                            if gn == F {
                                continue;
                            }
                            fr.st.g = gn;
                            let v = self.cmp_bytes(fr, &av, n as usize, ordered);
                            let v = self.bits(&v, 32);
                            r = Some(match r {
                                None => v,
                                Some(o) => o.iter().zip(v.iter()).map(|(&o, &v)| self.b.ite(gn, v, o)).collect::<Vec<_>>().into(),
                            });
                        }
                        fr.st.g = g;
                        if let Some(r) = r {
                            return Val::I(r);
                        }
                    }
                }
                // a length with a small bound: byte by byte, as far as the length goes
                let top = k.iter().rposition(|&x| x != F).map(|i| i + 1).unwrap_or(0);
                if top <= 6 {
                    let n = (1usize << top) - 1;
                    let a = self.read_bytes(&fr.st, &av[0], n);
                    let c = self.read_bytes(&fr.st, &av[1], n);
                    let (mut lt, mut ne) = (F, F);
                    let mut known = true;
                    for i in (0..n).rev() {
                        let inside = self.b.vult(&vconst(i as u128, pw()), &k);
                        if self.b.and(inside, fr.st.g) == F {
                            continue;
                        }
                        let (x, y) = match (&a[i], &c[i]) {
                            (Cell::B(p), Cell::B(q)) => (*p, *q),
                            _ => {
                                known = false;
                                break;
                            }
                        };
                        let eq = self.b.veq(&x, &y);
                        let less = if !ordered { F } else { self.b.vult(&x, &y) };
                        let l = self.b.ite(eq, lt, less);
                        lt = self.b.ite(inside, l, lt);
                        let d = self.b.and_not(inside, eq);
                        ne = self.b.or(ne, d);
                    }
                    if known {
                        let mut v = vec![lt; 32];
                        v[0] = ne;
                        return Val::I(v.into());
                    }
                }
                self.undec("memcmp of unknown length");
                return Val::I(self.opaque(&format!("memcmp{}", self.ninst), 32));
            }
            _ => {}
        }
        self.undec(format!("call to external function {}", demangle(n)));
        let w = ret.bits();
        if w > 0 {
            Val::I(self.opaque(&format!("ext{}", self.ninst), w))
        } else {
            Val::U
        }
    }
    fn all_input(&mut self, v: &Val, g: B) -> bool {
        let p = self.as_ptr(v);
        let f = self.feasible(&p, g);
        f.iter().all(|a| matches!(a.base, Base::Obj(o) if matches!(self.objs[o as usize].0, ObjKind::Input(_))))
    }
    fn cmp_bytes(&mut self, fr: &Frame, av: &[Val], k: usize, ordered: bool) -> Val {
        if k == 0 {
            return Val::I(vec![F; 32].into());
        }
        let a = self.read_bytes(&fr.st, &av[0], k);
        let c = self.read_bytes(&fr.st, &av[1], k);
        // most significant = first byte
        let mut va = vec![];
        let mut vc = vec![];
        for i in (0..k).rev() {
            match (&a[i], &c[i]) {
                (Cell::B(p), Cell::B(q)) => {
                    va.extend_from_slice(p);
                    vc.extend_from_slice(q);
                }
                _ => self.undec("comparison of non-integer bytes"),
            }
        }
        let lt = if !ordered { F } else { self.b.vult(&va, &vc) };
        let eq = self.b.veq_in(&va, &vc, fr.st.g);
        let neq = self.b.not(eq);
        let mut v = vec![lt; 32];
        v[0] = neq;
        Val::I(v.into())
    }
    fn record_panic(&mut self, n: &str, av: &[Val], g: B, st: &State) {
        let mut file = String::from("?");
        let mut line = 0;
        for a in av {
            if let Val::P(p) = a {
                let feas = self.feasible(p, g);
                for al in feas {
                    if let Base::Obj(o) = al.base {
                        if let ObjKind::Const(cells) = &self.objs[o as usize].0 {
                            let cells = cells.clone();
                            let off = as_const(&al.off).unwrap_or(u128::MAX >> 1) as usize;
                            if off == 0 && cells.len() == 2 * pb() + 8 && matches!(cells[0], Cell::P(..)) {
                                let fp = self.read_int(&cells, 0, pw(), T);
                                let fl = self.read_int(&cells, pb(), pw(), T);
                                let ln = self.read_int(&cells, 2 * pb(), 32, T);
                                if let (Val::P(_), Val::I(fl), Val::I(ln)) = (&fp, &fl, &ln) {
                                    if let (Some(k), Some(l)) = (as_const(fl), as_const(ln)) {
                                        if k < 512 {
                                            let bytes = self.read_bytes(&State { g: T, mem: st.mem.clone() }, &fp, k as usize);
                                            let s: Vec<u8> = bytes
                                                .iter()
                                                .map(|c| match c {
                                                    Cell::B(b) => as_const(b).unwrap_or(63) as u8,
                                                    _ => b'?',
                                                })
                                                .collect();
                                            file = String::from_utf8_lossy(&s).into_owned();
                                            line = l as u32;
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
        let stack = self.stack.iter().map(|s| demangle(s)).collect();
        self.panics.push(PanicSite { guard: g, callee: demangle(n), file, line, stack });
    }
    /// Runs f for every length k can have, each under its own condition, and joins the memories.
    fn by_length(&mut self, fr: &mut Frame, k: &V, what: &str, f: &mut dyn FnMut(&mut Self, &mut Frame, usize)) {
        let g = fr.st.g;
        let k = self.simp(k, g);
        if let Some(k) = as_const(&k) {
            return f(self, fr, k as usize);
        }
        let vals = match self.b.values(&k, g, 257) {
            Some(v) => v,
            None => return self.undec(format!("{} of unknown length", what)),
        };
        let before = fr.st.clone();
        let mut res: Option<State> = None;
        for (n, c) in vals {
            let c = self.b.and(c, g);
            if c == F {
                continue;
            }
            fr.st = State { g: c, mem: before.mem.clone() };
            f(self, fr, n as usize);
            let s = std::mem::replace(&mut fr.st, State { g: F, mem: Mem::new() });
            res = Some(match res {
                None => s,
                Some(r) => self.merge_state(c, &s, &r),
            });
        }
        fr.st = res.unwrap_or(before);
        fr.st.g = g;
    }
    fn copy(&mut self, fr: &mut Frame, d: &Val, s: &Val, n: usize) {
        if n == 0 {
            return;
        }
        let src = self.read_bytes(&fr.st, s, n);
        let mut st = std::mem::replace(&mut fr.st, State { g: F, mem: Mem::new() });
        self.store_at(&mut st, d, n, &mut |_, cells, k| cells[k..k + n].clone_from_slice(&src));
        fr.st = st;
    }
    fn intrinsic(&mut self, x: &str, ret: &Ty, args: &[(Ty, Op)], av: Vec<Val>, fr: &mut Frame) -> Val {
        let g = fr.st.g;
        let w = args.first().map(|a| a.0.bits()).unwrap_or(0);
        let base = x.split('.').next().unwrap_or("");
        if x.starts_with("memcpy") || x.starts_with("memmove") {
            let k = self.bits(&av[2], pw());
            self.by_length(fr, &k, "memcpy", &mut |me, fr, n| me.copy(fr, &av[0], &av[1], n));
            return Val::U;
        }
        if x.starts_with("memset") {
            let k = self.bits(&av[2], pw());
            let b = self.bits(&av[1], 8);
            let mut c = [F; 8];
            c.copy_from_slice(&b);
            let undef = matches!(av[1], Val::U);
            self.by_length(fr, &k, "memset", &mut |me, fr, n| {
                let mut st = std::mem::replace(&mut fr.st, State { g: F, mem: Mem::new() });
                me.store_at(&mut st, &av[0], n, &mut |_, cells, k| {
                    for i in 0..n {
                        cells[k + i] = if undef { Cell::U } else { Cell::B(c) };
                    }
                });
                fr.st = st;
            });
            return Val::U;
        }
        match base {
            "lifetime" | "experimental" | "dbg" | "donothing" | "prefetch" => return Val::U,
            "assume" => return Val::U,
            "expect" => return av[0].clone(),
            "is" => return cval(0, 1),
            "trap" | "ubsantrap" => {
                self.record_panic("trap", &av, g, &fr.st.clone());
                fr.st.g = F;
                return Val::U;
            }
            _ => {}
        }
        if let Ty::Vec(..) = args.first().map(|a| a.0.clone()).unwrap_or(Ty::Void) {
            self.undec(format!("vector intrinsic {x}"));
            return Val::U;
        }
        let a = self.bits(&av[0], w);
        let c = if av.len() > 1 { let w1 = args[1].0.bits(); self.bits(&av[1], w1) } else { a.clone() };
        if x.contains(".with.overflow") {
            let (v, o) = match base {
                "uadd" => {
                    let (v, c, _) = self.b.vadd(&a, &c, F);
                    (v, c)
                }
                "usub" => {
                    let (v, c, _) = self.b.vsub(&a, &c);
                    (v, c)
                }
                "sadd" => {
                    let (v, _, o) = self.b.vadd(&a, &c, F);
                    (v, o)
                }
                "ssub" => {
                    let (v, _, o) = self.b.vsub(&a, &c);
                    (v, o)
                }
                "umul" => {
                    let a2 = zext(&a, 2 * w);
                    let c2 = zext(&c, 2 * w);
                    let m = self.b.vmul(&a2, &c2);
                    let mut o = F;
                    for i in w..2 * w {
                        o = self.b.or(o, m[i]);
                    }
                    (m[..w].to_vec().into(), o)
                }
                _ => {
                    let key = format!("{x}|{a:?}|{c:?}");
                    let v = self.opaque(&key, w + 1);
                    (v[..w].to_vec().into(), v[w])
                }
            };
            return Val::A(Rc::new(vec![Val::I(v), Val::I(vec![o].into())]));
        }
        let r: V = match base {
            "umin" => {
                let l = self.b.vult(&a, &c);
                self.b.vite(l, &a, &c)
            }
            "umax" => {
                let l = self.b.vult(&a, &c);
                self.b.vite(l, &c, &a)
            }
            "smin" => {
                let l = self.b.vslt(&a, &c);
                self.b.vite(l, &a, &c)
            }
            "smax" => {
                let l = self.b.vslt(&a, &c);
                self.b.vite(l, &c, &a)
            }
            "usub" => {
                let (v, bo, _) = self.b.vsub(&a, &c);
                let z = vconst(0, w);
                self.b.vite(bo, &z, &v)
            }
            "uadd" => {
                let (v, co, _) = self.b.vadd(&a, &c, F);
                let z = vconst(u128::MAX, w);
                self.b.vite(co, &z, &v)
            }
            "fshl" | "fshr" => {
                let s = self.bits(&av[2], w);
                let wv = vconst(w as u128, w);
                let s = if w.is_power_of_two() {
                    let k = w.trailing_zeros() as usize;
                    zext(&s[..k], w)
                } else {
                    self.b.vudivrem(&s, &wv).1
                };
                // concat a:c
                let mut cc: Vec<B> = c.to_vec();
                cc.extend_from_slice(&a);
                let s2 = zext(&s, 2 * w);
                if base == "fshl" {
                    let v = self.b.vshift(&cc, &s2, true, F);
                    v[w..].to_vec().into()
                } else {
                    let v = self.b.vshift(&cc, &s2, false, F);
                    v[..w].to_vec().into()
                }
            }
            "bswap" => {
                let n = w / 8;
                let mut v = vec![];
                for k in (0..n).rev() {
                    v.extend_from_slice(&a[k * 8..k * 8 + 8]);
                }
                v.into()
            }
            "bitreverse" => a.iter().rev().copied().collect(),
            "ctpop" => {
                let mut acc = vconst(0, w);
                for i in 0..w {
                    let z = vconst(0, w);
                    acc = self.b.vadd(&acc, &z, a[i]).0;
                }
                acc
            }
            "ctlz" | "cttz" => {
                let mut acc = vconst(w as u128, w);
                for k in 0..w {
                    // last assignment wins: iterate from the far end
                    let i = if base == "cttz" { w - 1 - k } else { k };
                    let pos = if base == "cttz" { i } else { w - 1 - i };
                    let cst = vconst(pos as u128, w);
                    acc = self.b.vite(a[i], &cst, &acc);
                }
                acc
            }
            "abs" => {
                let z = vconst(0, w);
                let n = self.b.vsub(&z, &a).0;
                self.b.vite(a[w - 1], &n, &a)
            }
            "ucmp" | "scmp" => {
                let lt = if base == "ucmp" { self.b.vult(&a, &c) } else { self.b.vslt(&a, &c) };
                let eq = self.b.veq(&a, &c);
                let rw = ret.bits();
                let m1 = vconst(u128::MAX, rw);
                let one = vconst(1, rw);
                let z = vconst(0, rw);
                let t = self.b.vite(eq, &z, &one);
                self.b.vite(lt, &m1, &t)
            }
            _ => {
                let rw = ret.bits();
                let mut key = format!("{x}");
                for (v, (t, _)) in av.iter().zip(args) {
                    let b = self.bits(v, t.bits());
                    key.push_str(&format!("|{b:?}"));
                }
                if rw == 0 {
                    self.undec(format!("intrinsic {x}"));
                    return Val::U;
                }
                return Val::I(self.opaque(&key, rw));
            }
        };
        Val::I(r)
    }
    fn harness_call(&mut self, n: &str, _ret: &Ty, av: Vec<Val>, fr: &mut Frame) -> Val {
        let g = fr.st.g;
        let k = |me: &mut Self, i: usize, w: usize| -> u64 {
            let v = me.bits(&av[i], w);
            let v = me.simp(&v, g);
            as_const(&v).map(|x| x as u64).unwrap_or_else(|| {
                me.undecided.insert("harness id not constant".into());
                0
            })
        };
        match n {
            "vf_ptr" => {
                let id = k(self, 0, 32) as u32;
                let o = self.region_obj(id);
                let z = vconst(0, pw());
                Val::P(self.ptr1(Base::Obj(o), z))
            }
            "vf_len" => {
                let id = k(self, 0, 32) as u32;
                Val::I(self.len_vec(id))
            }
            "vf_sym" => {
                let id = k(self, 0, 32) as u32;
                let w = k(self, 1, 32) as usize;
                let v = self.sym(id, w);
                Val::I(zext(&v, 64))
            }
            "vf_fix" => {
                let k = |v: &Val| match v {
                    Val::I(x) => as_const(x),
                    Val::P(p) if p.len() == 1 && p[0].base == Base::None => as_const(&p[0].off),
                    _ => None,
                };
                match (k(&av[0]), k(&av[1]), k(&av[2])) {
                    (Some(r), Some(o), Some(v)) => {
                        self.fixed.insert((r as u32, o as u64), v as u8);
                    }
                    _ => self.undec("vf_fix of a varying byte"),
                }
                Val::U
            }
            "vf_assume" => {
                let c = self.bits(&av[0], 1)[0];
                fr.st.g = self.b.and(g, c);
                Val::U
            }
            "vf_obs" => {
                let p = self.bits(&av[0], 64);
                let v = self.bits(&av[1], 64);
                let w = k(self, 2, 32) as usize;
                self.add_obs(&p, g, ObsVal::Int(v, w));
                Val::U
            }
            "vf_obs_slice" => {
                let p = self.bits(&av[0], 64);
                let ptr = self.as_ptr(&av[1]);
                let alts = self.feasible(&ptr, g);
                let l = self.bits(&av[2], 64);
                if self.contents {
                    let l = self.simp(&l, g);
                    if let Some(lens) = self.b.values(&l, g, 65) {
                        self.add_obs(&p, g, ObsVal::Int(l, 64));
                        for (n, c) in lens {
                            let c = self.b.and(c, g);
                            if c == F {
                                continue;
                            }
                            let mut st = fr.st.clone();
                            st.g = c;
                            let cells = self.read_bytes(&st, &av[1], n as usize);
                            for (i, b) in cells.iter().enumerate() {
                                let q = as_const(&p).unwrap_or(0) as u64 ^ (i as u64 + 1).wrapping_mul(0x9e37_79b9_7f4a_7c15);
                                let v: V = match b {
                                    Cell::B(x) => x.to_vec().into(),
                                    _ => self.opaque(&format!("cell{}", self.ninst), 8),
                                };
                                let q = vconst(q as u128, 64);
                                self.add_obs(&q, c, ObsVal::Int(v, 8));
                            }
                        }
                        return Val::U;
                    }
                }
                self.add_obs(&p, g, ObsVal::Slice(Rc::new(alts), l));
                Val::U
            }
            "vf_havoc" => {
                let sz = k(self, 1, 64) as usize;
                let tag = k(self, 2, 32);
                let old = self.read_bytes(&fr.st, &av[0], sz);
                let mut cells = vec![];
                for (i, c) in old.iter().enumerate() {
                    cells.push(match c {
                        Cell::B(_) => {
                            let mut r = [F; 8];
                            for b in 0..8 {
                                r[b] = self.b.atom_named(&format!("h{tag}[{i}].{b}"), false, None);
                            }
                            Cell::B(r)
                        }
                        c => c.clone(),
                    });
                }
                let mut st = std::mem::replace(&mut fr.st, State { g: F, mem: Mem::new() });
                self.store_at(&mut st, &av[0], sz, &mut |_, cs, k| cs[k..k + sz].clone_from_slice(&cells));
                fr.st = st;
                Val::U
            }
            "vf_snap" => {
                let sz = k(self, 1, 64) as usize;
                let tag = k(self, 2, 32) as u32;
                let c = self.read_bytes(&fr.st, &av[0], sz);
                let e = match self.snaps.remove(&tag) {
                    None => (g, c),
                    Some((g0, c0)) => {
                        let v = (0..sz.min(c0.len())).map(|i| self.merge_cell(g0, &c0[i], &c[i])).collect();
                        (self.b.or(g0, g), v)
                    }
                };
                self.snaps.insert(tag, e);
                Val::U
            }
            _ => {
                self.undec(format!("unknown harness call {n}"));
                Val::U
            }
        }
    }
    fn add_obs(&mut self, path: &V, g: B, val: ObsVal) {
        match self.b.values(path, g, 4096) {
            Some(vals) => {
                for (p, gg) in vals {
                    self.obs.push(ObsRec { path: p as u64, guard: gg, val: val.clone() });
                }
            }
            None => self.undec("observation path not enumerable"),
        }
    }
}
fn elem(v: &Val, i: usize) -> Val {
    match v {
        Val::A(x) => x.get(i).cloned().unwrap_or(Val::U),
        _ => Val::U,
    }
}
fn insert(base: Val, ty: &Ty, x: &Val, ix: &[usize]) -> Val {
    if ix.is_empty() {
        return x.clone();
    }
    let n = match ty {
        Ty::Struct(fs, _) => fs.len(),
        Ty::Array(n, _) | Ty::Vec(n, _) => *n,
        _ => return Val::U,
    };
    let mut v: Vec<Val> = match &base {
        Val::A(xs) => (**xs).clone(),
        _ => vec![Val::U; n],
    };
    let (_, t) = ty.field_off(ix[0]);
    let sub = v[ix[0]].clone();
    v[ix[0]] = insert(sub, &t, x, &ix[1..]);
    Val::A(Rc::new(v))
}
pub fn sext_v(v: &[B], w: usize) -> V {
    (0..w).map(|i| if i < v.len() { v[i] } else { v[v.len() - 1] }).collect()
}

fn succs(t: &Term) -> Vec<usize> {
    match t {
        Term::Br(a) => vec![*a],
        Term::Cond(_, a, b) => vec![*a, *b],
        Term::Switch(_, _, d, cs) => {
            let mut v: Vec<usize> = cs.iter().map(|c| c.1).collect();
            v.push(*d);
            v
        }
        _ => vec![],
    }
}
fn uses(i: &I, f: &mut dyn FnMut(usize)) {
    let mut o = |x: &Op| {
        if let Op::L(k) = x {
            f(*k)
        }
    };
    match i {
        I::Bin(_, _, a, b) | I::Icmp(_, _, a, b) | I::Store(_, a, b) => {
            o(a);
            o(b)
        }
        I::Cast(_, _, a, _) | I::Load(_, a) | I::Freeze(_, a) | I::Extract(_, a, _) => o(a),
        I::Select(_, c, _, a, b) => {
            o(c);
            o(a);
            o(b)
        }
        I::Alloca(_) => {}
        I::Gep(b, _, v) => {
            o(b);
            for x in v {
                o(&x.0)
            }
        }
        I::Call(_, c, a, _) => {
            o(c);
            for x in a {
                o(&x.1)
            }
        }
        I::Insert(_, a, _, b, _) => {
            o(a);
            o(b)
        }
        I::Phi(..) => {}
        I::Opaque(_, v, _) => {
            for x in v {
                o(&x.1)
            }
        }
    }
}
fn compute_info(f: &Func) -> FInfo {
    let n = f.blocks.len();
    let sc: Vec<Vec<usize>> = f.blocks.iter().map(|b| succs(&b.term)).collect();
    // weak topological order
    let mut order = vec![usize::MAX; n];
    let mut seq = vec![];
    wto(&(0..n).collect::<Vec<_>>(), &sc, 0, &mut seq);
    for (i, b) in seq.iter().enumerate() {
        order[*b] = i;
    }
    let mut k = seq.len();
    for o in order.iter_mut() {
        if *o == usize::MAX {
            *o = k;
            k += 1;
        }
    }
    // liveness
    let words = (f.nlocals + 63) / 64;
    let mut usev = vec![vec![0u64; words]; n];
    let mut defv = vec![vec![0u64; words]; n];
    let mut phid = vec![vec![0u64; words]; n];
    for (b, blk) in f.blocks.iter().enumerate() {
        for i in &blk.insts {
            if let I::Phi(..) = i.i {
                if let Some(d) = i.dst {
                    phid[b][d / 64] |= 1 << (d % 64);
                }
                continue;
            }
            let (u, d) = (&mut usev[b], &defv[b]);
            uses(&i.i, &mut |x| {
                if d[x / 64] >> (x % 64) & 1 == 0 {
                    u[x / 64] |= 1 << (x % 64)
                }
            });
            if let Some(d) = i.dst {
                defv[b][d / 64] |= 1 << (d % 64);
            }
        }
        let mut t = |o: &Op| {
            if let Op::L(x) = o {
                if defv[b][x / 64] >> (x % 64) & 1 == 0 {
                    usev[b][x / 64] |= 1 << (x % 64)
                }
            }
        };
        match &blk.term {
            Term::Cond(c, _, _) => t(c),
            Term::Switch(_, c, _, _) => t(c),
            Term::Ret(Some((_, c))) => t(c),
            _ => {}
        }
    }
    let mut li = vec![vec![0u64; words]; n];
    loop {
        let mut ch = false;
        for b in (0..n).rev() {
            let mut out = vec![0u64; words];
            for &s in &sc[b] {
                for w in 0..words {
                    out[w] |= li[s][w] & !phid[s][w];
                }
                for i in &f.blocks[s].insts {
                    if let I::Phi(_, ins) = &i.i {
                        for (o, p) in ins {
                            if *p == b {
                                if let Op::L(x) = o {
                                    out[x / 64] |= 1 << (x % 64);
                                }
                            }
                        }
                    } else {
                        break;
                    }
                }
            }
            for w in 0..words {
                let v = usev[b][w] | (out[w] & !defv[b][w]);
                if v | li[b][w] != li[b][w] {
                    li[b][w] |= v;
                    ch = true;
                }
            }
        }
        if !ch {
            break;
        }
    }
    let mut head = vec![false; n];
    for b in 0..n {
        for &t in &sc[b] {
            head[t] |= order[b] >= order[t];
        }
    }
    FInfo { order, live_in: li, preds_from: vec![], head }
}
fn wto(nodes: &[usize], sc: &[Vec<usize>], entry: usize, out: &mut Vec<usize>) {
    // Tarjan SCCs restricted to `nodes`, emitted in topological order; each non-trivial
    // component is its head followed by the order of the rest.
    let inset: std::collections::HashSet<usize> = nodes.iter().copied().collect();
    let mut index: HashMap<usize, usize> = HashMap::new();
    let mut low: HashMap<usize, usize> = HashMap::new();
    let mut on: std::collections::HashSet<usize> = Default::default();
    let mut stack = vec![];
    let mut comps: Vec<Vec<usize>> = vec![];
    let mut counter = 0;
    let mut roots = vec![entry];
    roots.extend(nodes.iter().copied());
    for r in roots {
        if !inset.contains(&r) || index.contains_key(&r) {
            continue;
        }
        // iterative Tarjan
        let mut call: Vec<(usize, usize)> = vec![(r, 0)];
        index.insert(r, counter);
        low.insert(r, counter);
        counter += 1;
        stack.push(r);
        on.insert(r);
        while let Some((v, i)) = call.pop() {
            if i < sc[v].len() {
                call.push((v, i + 1));
                let w = sc[v][i];
                if !inset.contains(&w) {
                    continue;
                }
                if !index.contains_key(&w) {
                    index.insert(w, counter);
                    low.insert(w, counter);
                    counter += 1;
                    stack.push(w);
                    on.insert(w);
                    call.push((w, 0));
                } else if on.contains(&w) {
                    let l = low[&v].min(index[&w]);
                    low.insert(v, l);
                }
            } else {
                if low[&v] == index[&v] {
                    let mut c = vec![];
                    loop {
                        let w = stack.pop().unwrap();
                        on.remove(&w);
                        c.push(w);
                        if w == v {
                            break;
                        }
                    }
                    comps.push(c);
                }
                if let Some((p, _)) = call.last() {
                    let l = low[p].min(low[&v]);
                    low.insert(*p, l);
                }
            }
        }
    }
    for c in comps.into_iter().rev() {
        if c.len() == 1 {
            out.push(c[0]);
        } else {
            let head = *c.iter().min_by_key(|x| index[x]).unwrap();
            out.push(head);
            let rest: Vec<usize> = c.into_iter().filter(|x| *x != head).collect();
            // entry of the rest: any successor of head inside
            let e = sc[head].iter().copied().find(|x| rest.contains(x)).unwrap_or(rest[0]);
            wto(&rest, sc, e, out);
        }
    }
}

/// Readable name for a v0-mangled symbol (identifiers only).
pub fn demangle(s: &str) -> String {
    let core = s.split('.').next().unwrap_or(s);
    if !core.starts_with("_R") {
        return s.to_string();
    }
    let b = core.as_bytes();
    let mut out: Vec<String> = vec![];
    let mut i = 2;
    while i < b.len() {
        if b[i].is_ascii_digit() && (i == 0 || !b[i - 1].is_ascii_digit()) {
            let mut j = i;
            let mut n = 0usize;
            while j < b.len() && b[j].is_ascii_digit() && n < 1000 {
                n = n * 10 + (b[j] - b'0') as usize;
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                j += 1;
            }
            if n > 0 && j + n <= b.len() && core[j..j + n].chars().all(|c| c.is_ascii_alphanumeric() || c == '_') && b[j].is_ascii_alphabetic() | (b[j] == b'_') {
                out.push(core[j..j + n].to_string());
                i = j + n;
                continue;
            }
        }
        // skip disambiguators s<base62>_
        if b[i] == b's' {
            if let Some(e) = core[i..].find('_') {
                let seg = &core[i + 1..i + e];
                if seg.len() <= 12 && seg.chars().all(|c| c.is_ascii_alphanumeric()) {
                    i += e + 1;
                    continue;
                }
            }
        }
        if b[i] == b'B' {
            if let Some(e) = core[i..].find('_') {
                i += e + 1;
                continue;
            }
        }
        i += 1;
    }
    out.join("::")
}
