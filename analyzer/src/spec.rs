//! The layout rules: text tables that say, for every value a user can observe, which input
//! bits it must be made of and under which condition it must be present.
use crate::bdd::*;
use crate::interp::{Interp, ObsVal};
use std::collections::{BTreeMap, HashMap};

pub fn fnv(s: &str) -> u64 {
    let mut x: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        x ^= b as u64;
        x = x.wrapping_mul(0x100000001b3);
    }
    x
}
pub fn seg_hash(s: &str) -> u64 {
    let idx = |base: &str, n: &str| fnv(base).wrapping_add(n.parse::<u64>().unwrap_or(0).wrapping_mul(0x9e3779b97f4a7c15));
    if let Some(n) = s.strip_prefix('[').and_then(|x| x.strip_suffix(']')) {
        idx("[]", n)
    } else if let Some(n) = s.strip_prefix('#') {
        idx("#", n)
    } else {
        fnv(s)
    }
}
pub fn step(p: u64, h: u64) -> u64 {
    p.rotate_left(7) ^ h
}
pub fn path_hash(p: &str) -> u64 {
    segs(p).iter().fold(0, |a, s| step(a, seg_hash(s)))
}
pub fn segs(p: &str) -> Vec<String> {
    if p == "." || p.is_empty() {
        return vec![];
    }
    p.split('.').map(|x| x.to_string()).collect()
}
fn parent(p: &str) -> Option<(String, String)> {
    if p == "." {
        return None;
    }
    match p.rsplit_once('.') {
        Some((a, b)) => Some((a.to_string(), b.to_string())),
        None => Some((".".into(), p.to_string())),
    }
}

#[derive(Debug, Clone)]
pub enum X {
    Num(u128),
    Name(String),
    Len(u32),
    Sym(u32, usize),
    /// region prefix ("" or "r1" or "w0"), byte offset, first bit, bits
    In(String, i64, usize, usize),
    Bin(&'static str, Box<X>, Box<X>),
    Not(Box<X>),
    Ite(Box<X>, Box<X>, Box<X>),
    Match(Box<X>, Vec<(Vec<(u128, u128)>, X)>, Option<Box<X>>),
    Slice(Box<X>, Box<X>),
    /// byte of a region at a computed offset
    Byte(u32, Box<X>, usize),
    Str(String),
    /// value of another observed path
    Path(String),
}
#[derive(Debug, Clone)]
pub struct Entry {
    pub path: String,
    pub when: Option<X>,
    pub rhs: X,
    pub line: usize,
    pub text: String,
}
#[derive(Debug, Clone, Default)]
pub struct RootSpec {
    pub name: String,
    pub props: Vec<String>,
    pub order: Vec<String>,
    pub lets: Vec<(String, X)>,
    pub entries: Vec<Entry>,
    /// compare with the observations of this other root instead of a table
    pub same_as: Option<String>,
    /// extra rule names (e.g. "rank 1 2")
    pub rules: Vec<Vec<String>>,
    pub file: String,
    /// where in the analysed source the values come from
    pub src: String,
}

// ---------------------------------------------------------------- parser
struct Ps<'a> {
    s: &'a [u8],
    i: usize,
}
type R<T> = Result<T, String>;
impl<'a> Ps<'a> {
    fn ws(&mut self) {
        while self.i < self.s.len() && self.s[self.i].is_ascii_whitespace() {
            self.i += 1;
        }
    }
    fn eat(&mut self, t: &str) -> bool {
        self.ws();
        if self.s[self.i..].starts_with(t.as_bytes()) {
            self.i += t.len();
            true
        } else {
            false
        }
    }
    fn want(&mut self, t: &str) -> R<()> {
        if self.eat(t) {
            Ok(())
        } else {
            Err(format!("expected {t} at {}", String::from_utf8_lossy(&self.s[self.i..])))
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        *self.s.get(self.i).unwrap_or(&0)
    }
    fn ident(&mut self) -> String {
        self.ws();
        let st = self.i;
        while self.i < self.s.len() && (self.s[self.i].is_ascii_alphanumeric() || self.s[self.i] == b'_') {
            self.i += 1;
        }
        String::from_utf8_lossy(&self.s[st..self.i]).into_owned()
    }
    fn num(&mut self) -> R<u128> {
        let t = self.ident();
        parse_num(&t).ok_or(format!("number: {t}"))
    }
    fn expr(&mut self) -> R<X> {
        let c = self.bin(0)?;
        if self.eat("?") {
            let a = self.expr()?;
            self.want(":")?;
            let b = self.expr()?;
            return Ok(X::Ite(Box::new(c), Box::new(a), Box::new(b)));
        }
        Ok(c)
    }
    fn bin(&mut self, lvl: usize) -> R<X> {
        const L: &[&[&str]] = &[&["||"], &["&&"], &["==", "!=", "<=", ">=", "<", ">"], &["|"], &["^"], &["&"], &["<<", ">>"], &["+", "-"], &["*", "/", "%"]];
        if lvl == L.len() {
            return self.unary();
        }
        let mut a = self.bin(lvl + 1)?;
        'o: loop {
            self.ws();
            for op in L[lvl] {
                let rest = &self.s[self.i..];
                if rest.starts_with(op.as_bytes()) {
                    // do not take a prefix of a longer operator
                    let n = rest.get(op.len()).copied().unwrap_or(0);
                    if (*op == "|" && n == b'|') || (*op == "&" && n == b'&') || ((*op == "<" || *op == ">") && (n == op.as_bytes()[0] || n == b'=')) {
                        continue;
                    }
                    self.i += op.len();
                    let b = self.bin(lvl + 1)?;
                    a = X::Bin(op, Box::new(a), Box::new(b));
                    continue 'o;
                }
            }
            return Ok(a);
        }
    }
    fn unary(&mut self) -> R<X> {
        if self.peek() == b'!' {
            self.i += 1;
            return Ok(X::Not(Box::new(self.unary()?)));
        }
        self.prim()
    }
    fn prim(&mut self) -> R<X> {
        match self.peek() {
            b'(' => {
                self.i += 1;
                let x = self.expr()?;
                self.want(")")?;
                Ok(x)
            }
            b'@' => self.input(String::new()),
            b'"' => {
                self.i += 1;
                let mut t = vec![];
                while self.i < self.s.len() && self.s[self.i] != b'"' {
                    if self.s[self.i] == b'\\' {
                        self.i += 1;
                    }
                    t.push(self.s[self.i]);
                    self.i += 1;
                }
                self.i += 1;
                Ok(X::Str(String::from_utf8_lossy(&t).into_owned()))
            }
            b'$' => {
                self.i += 1;
                let st = self.i;
                while self.i < self.s.len() && (self.s[self.i].is_ascii_alphanumeric() || b"_.#[]".contains(&self.s[self.i])) {
                    self.i += 1;
                }
                Ok(X::Path(String::from_utf8_lossy(&self.s[st..self.i]).into_owned()))
            }
            c if c.is_ascii_digit() => Ok(X::Num(self.num()?)),
            _ => {
                let id = self.ident();
                if id.is_empty() {
                    return Err(format!("expression at {}", String::from_utf8_lossy(&self.s[self.i..])));
                }
                if self.i < self.s.len() && self.s[self.i] == b'@' {
                    return self.input(id);
                }
                match id.as_str() {
                    "len" => Ok(X::Len(0)),
                    "match" => {
                        let sel = self.bin(0)?;
                        self.want("{")?;
                        let mut arms = vec![];
                        let mut def = None;
                        loop {
                            if self.eat("}") {
                                break;
                            }
                            if self.peek() == b'_' {
                                self.i += 1;
                                self.want(":")?;
                                def = Some(Box::new(self.expr()?));
                            } else {
                                let mut keys = vec![];
                                loop {
                                    let a = self.num()?;
                                    let b = if self.eat("..") { self.num()? } else { a };
                                    keys.push((a, b));
                                    if !self.eat("|") {
                                        break;
                                    }
                                }
                                self.want(":")?;
                                arms.push((keys, self.expr()?));
                            }
                            self.eat(",");
                        }
                        Ok(X::Match(Box::new(sel), arms, def))
                    }
                    "slice" => {
                        self.want("(")?;
                        let a = self.expr()?;
                        self.want(",")?;
                        let b = self.expr()?;
                        self.want(")")?;
                        Ok(X::Slice(Box::new(a), Box::new(b)))
                    }
                    "byte" | "byte1" | "le2" | "le3" | "le4" | "le8" => {
                        self.want("(")?;
                        let a = self.expr()?;
                        self.want(")")?;
                        let n = id.strip_prefix("le").map(|n| n.parse().unwrap()).unwrap_or(1);
                        Ok(X::Byte((id == "byte1") as u32, Box::new(a), n))
                    }
                    "f32" | "f64" => {
                        self.want("(")?;
                        let st = self.i;
                        while self.i < self.s.len() && self.s[self.i] != b')' {
                            self.i += 1;
                        }
                        let t = String::from_utf8_lossy(&self.s[st..self.i]).trim().to_string();
                        self.i += 1;
                        Ok(X::Num(if id == "f32" { t.parse::<f32>().map_err(|e| format!("{e} {t}"))?.to_bits() as u128 } else { t.parse::<f64>().map_err(|e| format!("{e} {t}"))?.to_bits() as u128 }))
                    }
                    _ => {
                        if let Some(n) = id.strip_prefix("len") {
                            if let Ok(n) = n.parse() {
                                return Ok(X::Len(n));
                            }
                        }
                        if id.starts_with('s') && id[1..].chars().all(|c| c.is_ascii_digit()) && id.len() > 1 {
                            self.want(":")?;
                            let w = self.num()? as usize;
                            return Ok(X::Sym(id[1..].parse().unwrap(), w));
                        }
                        Ok(X::Name(id))
                    }
                }
            }
        }
    }
    fn input(&mut self, pre: String) -> R<X> {
        self.want("@")?;
        let neg = self.eat("-");
        let off = self.num()? as i64;
        let off = if neg { -off } else { off };
        if self.i < self.s.len() && self.s[self.i] == b'.' && self.s.get(self.i + 1) != Some(&b'.') {
            self.i += 1;
            let b = self.num()? as usize;
            return Ok(X::In(pre, off, b, 1));
        }
        if self.i < self.s.len() && self.s[self.i] == b'[' {
            self.i += 1;
            let lo = self.num()? as usize;
            self.want("+:")?;
            let n = self.num()? as usize;
            self.want("]")?;
            return Ok(X::In(pre, off, lo, n));
        }
        Ok(X::In(pre, off, 0, 8))
    }
}
pub fn parse_num(t: &str) -> Option<u128> {
    let t = t.replace('_', "");
    if let Some(h) = t.strip_prefix("0x") {
        u128::from_str_radix(h, 16).ok()
    } else if let Some(h) = t.strip_prefix("0b") {
        u128::from_str_radix(h, 2).ok()
    } else {
        t.parse().ok()
    }
}
fn parse_expr(s: &str) -> R<X> {
    let mut p = Ps { s: s.as_bytes(), i: 0 };
    let x = p.expr()?;
    p.ws();
    if p.i != p.s.len() {
        return Err(format!("trailing: {}", &s[p.i..]));
    }
    Ok(x)
}
/// `a.{b,c}.d` is `a.b.d` and `a.c.d`.
fn braces(p: &str) -> Vec<String> {
    match (p.find('{'), p.find('}')) {
        (Some(a), Some(b)) if a < b => p[a + 1..b].split(',').flat_map(|m| braces(&format!("{}{}{}", &p[..a], m.trim(), &p[b + 1..]))).collect(),
        _ => vec![p.to_string()],
    }
}
pub fn parse_spec(text: &str, file: &str) -> R<Vec<RootSpec>> {
    let mut out: Vec<RootSpec> = vec![];
    let mut lines: Vec<(usize, String)> = vec![];
    for (n, l) in text.lines().enumerate() {
        let l = match l.find("//") {
            Some(k) => &l[..k],
            None => l,
        };
        if l.trim().is_empty() {
            continue;
        }
        // continuation: deeper than two spaces of indentation
        if l.starts_with("      ") && !lines.is_empty() {
            let k = lines.len() - 1;
            lines[k].1.push(' ');
            lines[k].1.push_str(l.trim());
        } else {
            lines.push((n + 1, l.to_string()));
        }
    }
    for (n, l) in lines {
        let err = |e: String| format!("{file}:{n}: {e}");
        let t = l.trim();
        if let Some(r) = t.strip_prefix("root ") {
            let (names, props) = r.split_once(':').ok_or_else(|| err("root needs properties".into()))?;
            let names: Vec<&str> = names.split_whitespace().collect();
            let mut rs = RootSpec { name: names[0].to_string(), file: file.to_string(), ..Default::default() };
            if names.len() == 3 && names[1] == "same" {
                rs.same_as = Some(names[2].to_string());
            }
            rs.props = props.split_whitespace().map(|x| x.to_string()).collect();
            out.push(rs);
            continue;
        }
        let cur = out.last_mut().ok_or_else(|| err("entry before root".into()))?;
        if let Some(r) = t.strip_prefix("order ") {
            cur.order.extend(r.split_whitespace().map(|x| x.to_string()));
            continue;
        }
        if let Some(r) = t.strip_prefix("src ") {
            cur.src = r.trim().to_string();
            continue;
        }
        if let Some(r) = t.strip_prefix("rule ") {
            cur.rules.push(r.split_whitespace().map(|x| x.to_string()).collect());
            continue;
        }
        if let Some(r) = t.strip_prefix("let ") {
            let (a, b) = r.split_once('=').ok_or_else(|| err("let".into()))?;
            cur.lets.push((a.trim().to_string(), parse_expr(b.trim()).map_err(err)?));
            continue;
        }
        let (p, x) = t.split_once(" = ").ok_or_else(|| err(format!("no ` = ` in {t}")))?;
        let (p, w) = match p.split_once(" when ") {
            Some((a, b)) => (a.trim(), Some(parse_expr(b).map_err(err)?)),
            None => (p.trim(), None),
        };
        let rhs = parse_expr(x).map_err(err)?;
        for q in braces(p) {
            if cur.entries.iter().any(|e| e.path == q) {
                return Err(format!("{file}:{n}: {q} given twice"));
            }
            cur.entries.push(Entry { path: q, when: w.clone(), rhs: rhs.clone(), line: n, text: x.to_string() });
        }
    }
    Ok(out)
}

// ---------------------------------------------------------------- evaluation
pub enum SV {
    Int(V),
    Slice(V, V),
    Str(String),
}
pub struct Eval<'a, 'p> {
    pub it: &'a mut Interp<'p>,
    pub lets: HashMap<String, X>,
    pub ents: BTreeMap<String, Entry>,
    memo_g: HashMap<String, B>,
    memo_v: HashMap<String, V>,
    care: B,
    used_byte: bool,
}
impl<'a, 'p> Eval<'a, 'p> {
    pub fn new(it: &'a mut Interp<'p>, rs: &RootSpec) -> Self {
        Eval { it, lets: rs.lets.iter().cloned().collect(), ents: rs.entries.iter().map(|e| (e.path.clone(), e.clone())).collect(), memo_g: HashMap::new(), memo_v: HashMap::new(), care: T, used_byte: false }
    }
    fn b1(&mut self, v: &V) -> B {
        let mut r = F;
        for &x in v.iter() {
            r = self.it.b.or(r, x);
        }
        r
    }
    fn bv(&self, b: B) -> V {
        let mut v = vec![F; 64];
        v[0] = b;
        v.into()
    }
    pub fn num(&mut self, x: &X) -> R<V> {
        Ok(match x {
            X::Num(n) => vconst(*n, 64),
            X::Name(n) => {
                if let Some(x) = self.lets.get(n).cloned() {
                    let key = format!("let {n}");
                    if let Some(v) = self.memo_v.get(&key) {
                        return Ok(v.clone());
                    }
                    let ub = std::mem::take(&mut self.used_byte);
                    let v = self.num(&x)?;
                    if !self.used_byte {
                        self.memo_v.insert(key, v.clone());
                    }
                    self.used_byte |= ub;
                    v
                } else if n.chars().next().map(|c| c.is_ascii_uppercase()).unwrap_or(false) {
                    vconst((fnv(n) & 0xffff_ffff) as u128, 64)
                } else {
                    return Err(format!("unknown name {n}"));
                }
            }
            X::Len(r) => zext(&self.it.len_vec(*r), 64),
            X::Sym(i, w) => {
                let v = self.it.sym(*i, *w);
                zext(&v, 64)
            }
            X::In(pre, off, lo, n) => {
                let mut v = vec![F; 64];
                for k in 0..*n {
                    let bit = lo + k;
                    let o = off + (bit / 8) as i64;
                    let name = format!("{pre}@{o:#x}.{}", bit % 8);
                    v[k] = self.it.b.atom_named(&name, false, None);
                }
                v.into()
            }
            X::Bin(op, a, c) => {
                let a = self.num(a)?;
                let c = self.num(c)?;
                let b = &mut self.it.b;
                match *op {
                    "||" | "&&" => {
                        let x = self.b1(&a);
                        let y = self.b1(&c);
                        let r = if *op == "||" { self.it.b.or(x, y) } else { self.it.b.and(x, y) };
                        self.bv(r)
                    }
                    "==" => {
                        let r = b.veq(&a, &c);
                        self.bv(r)
                    }
                    "!=" => {
                        let r = b.veq(&a, &c);
                        let r = b.not(r);
                        self.bv(r)
                    }
                    "<" => {
                        let r = b.vult(&a, &c);
                        self.bv(r)
                    }
                    ">" => {
                        let r = b.vult(&c, &a);
                        self.bv(r)
                    }
                    "<=" => {
                        let r = b.vult(&c, &a);
                        let r = b.not(r);
                        self.bv(r)
                    }
                    ">=" => {
                        let r = b.vult(&a, &c);
                        let r = b.not(r);
                        self.bv(r)
                    }
                    "|" => (0..64).map(|i| b.or(a[i], c[i])).collect(),
                    "&" => (0..64).map(|i| b.and(a[i], c[i])).collect(),
                    "^" => (0..64).map(|i| b.xor(a[i], c[i])).collect(),
                    "+" => b.vadd(&a, &c, F).0,
                    "-" => b.vsub(&a, &c).0,
                    "*" => b.vmul(&a, &c),
                    "/" => b.vudivrem(&a, &c).0,
                    "%" => b.vudivrem(&a, &c).1,
                    "<<" => b.vshift(&a, &c, true, F),
                    ">>" => b.vshift(&a, &c, false, F),
                    _ => return Err(format!("operator {op}")),
                }
            }
            X::Not(a) => {
                let a = self.num(a)?;
                let r = self.b1(&a);
                let r = self.it.b.not(r);
                self.bv(r)
            }
            X::Ite(c, a, e) => {
                let c = self.num(c)?;
                let c = self.b1(&c);
                let a = self.num(a)?;
                let e = self.num(e)?;
                self.it.b.vite(c, &a, &e)
            }
            X::Match(s, arms, def) => {
                let s = self.num(s)?;
                let mut r = match def {
                    Some(d) => self.num(d)?,
                    None => vconst(0, 64),
                };
                for (keys, x) in arms.iter().rev() {
                    let v = self.num(x)?;
                    let mut c = F;
                    for (lo, hi) in keys {
                        let e = if lo == hi {
                            let k = vconst(*lo, 64);
                            self.it.b.veq(&s, &k)
                        } else {
                            let l = vconst(*lo, 64);
                            let h = vconst(*hi, 64);
                            let x = self.it.b.vult(&s, &l);
                            let y = self.it.b.vult(&h, &s);
                            let o = self.it.b.or(x, y);
                            self.it.b.not(o)
                        };
                        c = self.it.b.or(c, e);
                    }
                    r = self.it.b.vite(c, &v, &r);
                }
                r
            }
            X::Byte(r, a, n) => {
                let mut a = self.num(a)?;
                let mut v = vec![];
                for _ in 0..*n {
                    v.extend(self.it.input_byte(*r, &a, self.care));
                    let one = vconst(1, 64);
                    a = self.it.b.vadd(&a, &one, F).0;
                }
                self.used_byte = true;
                zext(&v, 64)
            }
            X::Path(p) => self.value(p)?,
            X::Slice(..) | X::Str(_) => return Err("slice in a numeric position".into()),
        })
    }
    pub fn value(&mut self, p: &str) -> R<V> {
        if let Some(v) = self.memo_v.get(p) {
            return Ok(v.clone());
        }
        let e = self.ents.get(p).cloned().ok_or(format!("no entry {p}"))?;
        let care = self.guard(p)?;
        let old = std::mem::replace(&mut self.care, care);
        let v = self.num(&e.rhs);
        self.care = old;
        let v = v?;
        self.memo_v.insert(p.to_string(), v.clone());
        Ok(v)
    }
    /// Condition under which the path must be present.
    pub fn guard(&mut self, p: &str) -> R<B> {
        if let Some(&g) = self.memo_g.get(p) {
            return Ok(g);
        }
        let mut g = match parent(p) {
            None => T,
            Some((q, s)) => {
                let mut g = self.guard(&q)?;
                if let Some(n) = s.strip_prefix('#') {
                    let n: usize = n.parse().map_err(|_| "index")?;
                    if n > 0 {
                        let prev = if q == "." { format!("#{}", n - 1) } else { format!("{q}.#{}", n - 1) };
                        let pg = self.guard(&prev)?;
                        let v = self.value(&prev)?;
                        let k = vconst((fnv("Some") & 0xffff_ffff) as u128, 64);
                        let e = self.it.b.veq(&v, &k);
                        g = self.it.b.and(pg, e);
                    }
                } else if self.ents.contains_key(&q) {
                    let v = self.value(&q)?;
                    let k = vconst((seg_hash(&s) & 0xffff_ffff) as u128, 64);
                    let e = self.it.b.veq(&v, &k);
                    g = self.it.b.and(g, e);
                }
                g
            }
        };
        if let Some(e) = self.ents.get(p).cloned() {
            if let Some(w) = &e.when {
                let w = self.num(w)?;
                let w = self.b1(&w);
                g = self.it.b.and(g, w);
            }
        }
        self.memo_g.insert(p.to_string(), g);
        Ok(g)
    }
    pub fn rhs(&mut self, p: &str) -> R<SV> {
        let e = self.ents.get(p).cloned().ok_or(format!("no entry {p}"))?;
        Ok(match &e.rhs {
            X::Slice(a, b) => SV::Slice(self.num(a)?, self.num(b)?),
            X::Str(s) => SV::Str(s.clone()),
            _ => SV::Int(self.value(p)?),
        })
    }
}

/// Observations of a root, one per path.
pub fn collect(it: &mut Interp) -> BTreeMap<u64, (B, ObsVal)> {
    let mut m: BTreeMap<u64, (B, ObsVal)> = BTreeMap::new();
    let obs = std::mem::take(&mut it.obs);
    for o in obs.iter() {
        if o.guard == F {
            continue;
        }
        let n = match m.remove(&o.path) {
            None => (o.guard, o.val.clone()),
            Some((g0, v0)) => {
                let g = it.b.or(g0, o.guard);
                let v = match (&v0, &o.val) {
                    (ObsVal::Int(a, w), ObsVal::Int(b, w2)) => ObsVal::Int(it.b.vite(o.guard, b, a), *w.max(w2)),
                    (ObsVal::Slice(p, l), ObsVal::Slice(q, k)) => ObsVal::Slice(it.merge_ptr_pub(o.guard, q, p), it.b.vite(o.guard, k, l)),
                    _ => o.val.clone(),
                };
                (g, v)
            }
        };
        m.insert(o.path, n);
    }
    it.obs = obs;
    m
}

// ---------------------------------------------------------------- names of paths (reports, dump)
pub struct Names {
    pub list: Vec<(String, u64)>,
}
impl Names {
    pub fn from_sources(dir: &str) -> Names {
        let mut set = std::collections::BTreeSet::new();
        if let Ok(rd) = std::fs::read_dir(dir) {
            for e in rd.flatten() {
                let t = std::fs::read_to_string(e.path()).unwrap_or_default();
                let mut r = &t[..];
                while let Some(k) = r.find("h(\"") {
                    r = &r[k + 3..];
                    if let Some(e) = r.find('"') {
                        set.insert(r[..e].to_string());
                    }
                }
                // field names given as identifiers to observation macros
                for w in t.split(|c: char| !(c.is_ascii_alphanumeric() || c == '_')) {
                    if w.len() > 1 && e.file_name() != "obs.rs" && w.chars().next().unwrap().is_ascii_alphabetic() {
                        set.insert(w.to_string());
                    }
                }
            }
        }
        for i in 0..64 {
            set.insert(format!("[{i}]"));
        }
        for i in 0..300 {
            set.insert(format!("#{i}"));
        }
        for i in 0..8 {
            set.insert(i.to_string());
        }
        Names { list: set.into_iter().map(|s| { let h = seg_hash(&s); (s, h) }).collect() }
    }
    /// Paths for hashes; best effort.
    pub fn resolve(&self, hashes: &[u64]) -> HashMap<u64, String> {
        let mut known: HashMap<u64, String> = HashMap::new();
        known.insert(0, ".".into());
        let mut frontier: Vec<u64> = vec![0];
        let mut left: Vec<u64> = hashes.iter().copied().filter(|h| *h != 0).collect();
        let mut fwd: HashMap<u64, (u64, usize)> = HashMap::new();
        let join = |a: &str, b: &str| if a == "." { b.to_string() } else { format!("{a}.{b}") };
        while !left.is_empty() && !frontier.is_empty() {
            for q in frontier.drain(..) {
                for (i, (_, h)) in self.list.iter().enumerate() {
                    fwd.entry(step(q, *h)).or_insert((q, i));
                }
            }
            let mut rest = vec![];
            let mut newp = vec![];
            for p in left {
                let mut hit = None;
                if let Some(&(q, i)) = fwd.get(&p) {
                    hit = Some(vec![(q, i)]);
                } else {
                    'o: for (i1, (_, h1)) in self.list.iter().enumerate() {
                        let q1 = (p ^ h1).rotate_right(7);
                        if let Some(&(q, i)) = fwd.get(&q1) {
                            hit = Some(vec![(q, i), (q1, i1)]);
                            break 'o;
                        }
                    }
                }
                match hit {
                    None => rest.push(p),
                    Some(ch) => {
                        for (q, i) in ch {
                            let nh = step(q, self.list[i].1);
                            if !known.contains_key(&nh) {
                                let s = join(&known[&q], &self.list[i].0);
                                known.insert(nh, s);
                                newp.push(nh);
                            }
                        }
                    }
                }
            }
            left = rest;
            frontier = newp;
        }
        known
    }
    pub fn tag(&self, v: u128) -> Option<&str> {
        self.list.iter().find(|(s, h)| (*h & 0xffff_ffff) as u128 == v && s.chars().next().unwrap().is_ascii_uppercase()).map(|x| &x.0[..])
    }
}

// ---------------------------------------------------------------- dump in rule syntax
pub fn dump(it: &mut Interp, names: &Names) -> String {
    let m = collect(it);
    let hs: Vec<u64> = m.keys().copied().collect();
    let rn = names.resolve(&hs);
    let mut rows: Vec<(Vec<String>, String)> = vec![];
    let mut order: HashMap<u64, usize> = HashMap::new();
    for (i, o) in it.obs.iter().enumerate() {
        order.entry(o.path).or_insert(i);
    }
    let mut keys: Vec<u64> = hs.clone();
    keys.sort_by_key(|k| order[k]);
    for h in keys {
        let (g, v) = m[&h].clone();
        let p = rn.get(&h).cloned().unwrap_or(format!("?{h:x}"));
        let txt = match &v {
            ObsVal::Int(_, 0) => continue,
            ObsVal::Int(x, w) => show(it, names, &x[..*w], g, 0),
            ObsVal::Slice(p, l) => {
                let l64: Vec<B> = l.to_vec();
                let lt = show(it, names, &l64, g, 0);
                let nz = {
                    let mut r = F;
                    for &x in l.iter() {
                        r = it.b.or(r, x);
                    }
                    it.b.and(r, g)
                };
                let mut o = vec![];
                for a in p.iter() {
                    let gg = it.b.and(a.g, nz);
                    if gg == F {
                        continue;
                    }
                    let s = match it.const_bytes(&a.base, &a.off, l, gg) {
                        Some(s) => format!("{:?}", String::from_utf8_lossy(&s)),
                        None => format!("{:?}:{}", it.region_of(&a.base), show(it, names, &a.off, gg, 0)),
                    };
                    o.push(s);
                }
                if o.len() == 1 && o[0].starts_with('"') { o[0].clone() } else { format!("slice({}, {lt})", o.join(" / ")) }
            }
        };
        rows.push((vec![p], txt));
    }
    rows.iter().map(|(p, t)| format!("  {} = {}\n", p[0], t)).collect()
}
type Atom = (String, i64);
fn atom_of(n: &str) -> Option<Atom> {
    let (a, b) = n.rsplit_once('.')?;
    let bit: i64 = b.parse().ok()?;
    if let Some((r, o)) = a.split_once('@') {
        let off = i64::from_str_radix(o.trim_start_matches("0x"), 16).ok()?;
        return Some((format!("{r}@"), off * 8 + bit));
    }
    Some((a.to_string(), bit))
}
fn field(a: &Atom, n: i64) -> String {
    if a.0.ends_with('@') {
        let (o, b) = (a.1 / 8, a.1 % 8);
        if n == 1 {
            format!("{}{o:#x}.{b}", a.0)
        } else {
            format!("{}{o:#x}[{b}+:{n}]", a.0)
        }
    } else {
        format!("{}[{}+:{n}]", a.0, a.1)
    }
}
fn show(it: &mut Interp, names: &Names, v: &[B], g: B, depth: usize) -> String {
    let w = v.len();
    let r: Vec<B> = v.iter().map(|&x| it.b.restrict(x, g)).collect();
    let cst = |k: u128| -> String {
        if w == 32 {
            if let Some(t) = names.tag(k) {
                return t.to_string();
            }
        }
        if k < 10 { k.to_string() } else { format!("{k:#x}") }
    };
    if let Some(k) = as_const(&r) {
        return cst(k);
    }
    // concatenation of fields
    let at: Vec<Option<Option<Atom>>> = r.iter().map(|&b| if b == F { Some(None) } else { it.b.as_atom(b).map(|v| atom_of(&it.b.names[v as usize])) }).collect();
    if at.iter().all(|x| x.is_some()) {
        let mut parts = vec![];
        let mut i = 0;
        while i < w {
            match at[i].as_ref().unwrap() {
                None => i += 1,
                Some(a) => {
                    let st = i;
                    while i < w && matches!(at[i].as_ref().unwrap(), Some(x) if x.0 == a.0 && x.1 == a.1 + (i - st) as i64) {
                        i += 1;
                    }
                    let f = field(a, (i - st) as i64);
                    parts.push(if a.0 == "len" && a.1 == 0 && st == 0 && i - st == 13 { "len".into() } else if st == 0 { f } else { format!("{f} << {st}") });
                }
            }
        }
        return parts.join(" | ");
    }
    // equal to a field under the guard
    for &b in r.iter().chain(v.iter()) {
        for x in it.b.support(b) {
            let a = match atom_of(&it.b.names[x as usize]) { Some(a) if a.0.ends_with('@') => a, _ => continue };
            for lo in (a.1 - 3).max(0)..=a.1 {
                for n in 2..9i64 {
                    if n as usize > w || lo + n <= a.1 { continue; }
                    let mut ok = true;
                    for j in 0..w {
                        let want = if (j as i64) < n {
                            let bb = lo + j as i64;
                            let nm = format!("{}{:#x}.{}", a.0, bb / 8, bb % 8);
                            if !it.b.names.contains(&nm) { ok = false; break; }
                            it.b.atom_named(&nm, false, None)
                        } else { F };
                        let d = it.b.xor(v[j], want);
                        if it.b.and(d, g) != F { ok = false; break; }
                    }
                    if ok { return field(&(a.0.clone(), lo), n); }
                }
            }
        }
    }
    if depth > 4 {
        return "TODO-deep".into();
    }
    let mut sup = std::collections::BTreeSet::new();
    for &b in &r {
        for v in it.b.support(b) {
            sup.insert(v);
        }
    }
    let atoms: Vec<(Atom, u32)> = sup.iter().filter_map(|&v| atom_of(&it.b.names[v as usize]).map(|a| (a, v))).collect();
    if atoms.len() != sup.len() {
        return "TODO-opaque".into();
    }
    let lens: Vec<&(Atom, u32)> = atoms.iter().filter(|a| a.0 .0.starts_with("len")).collect();
    if lens.len() == atoms.len() {
        let pre = lens[0].0 .0.clone();
        if lens.iter().all(|a| a.0 .0 == pre) {
            let mut out = String::new();
            let mut prev: Option<(u128, u64)> = None;
            let mut cnt = 0;
            let drop: std::collections::HashSet<u32> = it.b.support(g).into_iter().filter(|v| !it.b.names[*v as usize].starts_with(&format!("{pre}."))).collect();
            let gl = it.b.exists(g, &drop);
            let all: Vec<(u32, i64)> = it.b.support(gl).into_iter().map(|v| (v, atom_of(&it.b.names[v as usize]).unwrap().1)).collect();
            for l in 0..8192u64 {
                let ga: HashMap<u32, bool> = all.iter().map(|a| (a.0, l >> a.1 & 1 == 1)).collect();
                if !it.b.eval(gl, &ga) {
                    continue;
                }
                let asg: HashMap<u32, bool> = lens.iter().map(|a| (a.1, l >> a.0 .1 & 1 == 1)).collect();
                let mut k = 0u128;
                for (i, &b) in r.iter().enumerate() {
                    if it.b.eval(b, &asg) {
                        k |= 1 << i;
                    }
                }
                // skip lengths outside the guard
                match prev {
                    Some((pk, _)) if pk == k => {}
                    Some((pk, _)) => {
                        cnt += 1;
                        if cnt > 12 {
                            return "TODO-len".into();
                        }
                        out.push_str(&format!("{pre} < {l} ? {} : ", cst(pk)));
                        prev = Some((k, l));
                    }
                    None => prev = Some((k, l)),
                }
            }
            out.push_str(&cst(prev.unwrap().0));
            return out;
        }
    }
    // table over the first contiguous field
    let mut others: Vec<Atom> = atoms.iter().filter(|a| !a.0 .0.starts_with("len")).map(|a| a.0.clone()).collect();
    others.sort();
    // widest run
    let mut runs: Vec<(Atom, i64)> = vec![];
    for a in others {
        match runs.last_mut() {
            Some((b, n)) if b.0 == a.0 && a.1 - (b.1 + *n) <= 1 && (b.1 + *n) / 16 == b.1 / 16 => *n = a.1 - b.1 + 1,
            _ => runs.push((a, 1)),
        }
    }
    runs.sort_by_key(|r| r.1);
    runs.retain(|r| r.1 <= 9);
    let mut best: Option<String> = None;
    if runs.len() > 1 && depth < 3 {
        // a run all of whose cofactors are plain
        for (a, n) in runs.iter() {
            let t = show_run(it, names, v, g, a, *n, 99);
            if !t.contains("TODO") && best.as_ref().map(|b| b.len() > t.len()).unwrap_or(true) {
                best = Some(t);
            }
        }
        if best.is_none() {
            for (a, n) in runs.iter().filter(|r| r.1 <= 6).take(6) {
                let t = show_run(it, names, v, g, a, *n, depth);
                if !t.contains("TODO") && best.as_ref().map(|b| b.len() > t.len()).unwrap_or(true) {
                    best = Some(t);
                }
            }
        }
    }
    if let Some(t) = best {
        return if t.len() > 1500 { "TODO-long".into() } else { t };
    }
    if let Some((a, n)) = runs.into_iter().next() {
        let t = show_run(it, names, v, g, &a, n, depth);
        return if t.len() > 1500 { "TODO-long".into() } else { t };
    }
    let mut l: Vec<String> = atoms.iter().map(|a| it.b.names[a.1 as usize].clone()).collect();
    l.truncate(20);
    format!("TODO {l:?}")
}
fn show_run(it: &mut Interp, names: &Names, v: &[B], g: B, a: &Atom, n: i64, depth: usize) -> String {
        let mut groups: Vec<(String, Vec<u128>)> = vec![];
        let fname = field(a, n);
        let fv: Vec<B> = (0..n)
            .map(|j| {
                let b = a.1 + j;
                let name = if a.0.ends_with('@') { format!("{}{:#x}.{}", a.0, b / 8, b % 8) } else { format!("{}.{b}", a.0) };
                it.b.atom_named(&name, false, None)
            })
            .collect();
        for k in 0..(1u128 << n) {
            let kk = vconst(k, n as usize);
            let e = it.b.veq(&fv, &kk);
            let gg = it.b.and(g, e);
            if gg == F {
                continue;
            }
            let t = show(it, names, v, gg, depth + 1);
            match groups.iter_mut().find(|x| x.0 == t) {
                Some(x) => x.1.push(k),
                None => groups.push((t, vec![k])),
            }
        }
        let par = |t: &str| if t.contains('?') { format!("({t})") } else { t.to_string() };
        if n == 1 && groups.len() == 1 { return groups[0].0.clone(); }
        if n == 1 && groups.len() == 2 && groups[0].1 == [0] {
            return format!("{fname} ? {} : {}", par(&groups[1].0), par(&groups[0].0));
        }
        let big = groups.iter().map(|x| x.1.len()).max().unwrap();
        let mut s = format!("match {fname} {{ ");
        let mut def = None;
        for (t, ks) in &groups {
            if ks.len() == big && big > 1 && def.is_none() {
                def = Some(t.clone());
                continue;
            }
            let ks: Vec<String> = ks.iter().map(|k| if *k < 10 { k.to_string() } else { format!("{k:#x}") }).collect();
            s.push_str(&format!("{}: {}, ", ks.join("|"), par(t)));
        }
        if let Some(d) = def {
            s.push_str(&format!("_: {} ", par(&d)));
        }
        s.push('}');
        s
}
