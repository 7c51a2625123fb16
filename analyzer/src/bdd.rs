//! Hash-consed decision diagrams over input-bit atoms.  This is the carrier of the
//! abstract domain: every bit of every value is one decision diagram, every program
//! point's reachability condition is one decision diagram.
use std::collections::HashMap;

pub type B = u32;
pub const F: B = 0;
pub const T: B = 1;

#[derive(Clone, Copy, PartialEq, Eq)]
struct Node {
    var: u32,
    lo: B,
    hi: B,
}

#[derive(Clone, Copy)]
struct CacheEnt {
    f: B,
    g: B,
    h: B,
    r: B,
}

/// Raised (as a panic payload) when an analysis exceeds its node budget.
pub struct Budget(pub &'static str);

pub struct Bdd {
    nodes: Vec<Node>,
    uniq: Vec<u32>,
    uniq_mask: usize,
    cache: Vec<CacheEnt>,
    /// name of every atom, index = variable
    pub names: Vec<String>,
    /// atoms that stand for an over-approximated (unknown) bit
    pub opaque: Vec<bool>,
    by_name: HashMap<String, u32>,
    /// position of a variable in the order
    rank: Vec<u64>,
    pub limit: usize,
    pub deadline: std::time::Instant,
    ticks: std::cell::Cell<u32>,
}

const CACHE_BITS: usize = 20;

fn mix(a: u32, b: u32, c: u32) -> usize {
    let mut h = (a as u64).wrapping_mul(0x9E3779B97F4A7C15);
    h ^= (b as u64).wrapping_mul(0xC2B2AE3D27D4EB4F).rotate_left(31);
    h ^= (c as u64).wrapping_mul(0x165667B19E3779F9).rotate_left(17);
    h ^= h >> 29;
    h = h.wrapping_mul(0xBF58476D1CE4E5B9);
    (h ^ (h >> 32)) as usize
}

impl Bdd {
    pub fn new() -> Self {
        let mut b = Bdd {
            nodes: Vec::with_capacity(1 << 16),
            uniq: vec![u32::MAX; 1 << 17],
            uniq_mask: (1 << 17) - 1,
            cache: vec![CacheEnt { f: u32::MAX, g: 0, h: 0, r: 0 }; 1 << CACHE_BITS],
            names: vec![],
            opaque: vec![],
            by_name: HashMap::new(),
            rank: vec![],
            limit: 40_000_000,
            deadline: std::time::Instant::now() + std::time::Duration::from_secs(3600),
            ticks: Default::default(),
        };
        b.nodes.push(Node { var: u32::MAX, lo: 0, hi: 0 });
        b.nodes.push(Node { var: u32::MAX, lo: 1, hi: 1 });
        b
    }
    pub fn size(&self) -> usize {
        self.nodes.len()
    }
    pub fn atom_named(&mut self, name: &str, opaque: bool, rank: Option<u64>) -> B {
        let v = match self.by_name.get(name) {
            Some(&v) => v,
            None => {
                let v = self.names.len() as u32;
                self.names.push(name.to_string());
                self.opaque.push(opaque);
                self.rank.push(rank.unwrap_or(1_000_000 + v as u64));
                self.by_name.insert(name.to_string(), v);
                v
            }
        };
        self.mk(v, F, T)
    }
    #[inline]
    fn tick(&self, n: u32) {
        let t = self.ticks.get().wrapping_add(n);
        self.ticks.set(t & 0xffff);
        if t > 0xffff && std::time::Instant::now() > self.deadline {
            std::panic::panic_any(Budget("time"));
        }
    }
    #[inline]
    fn rk(&self, f: B) -> u64 {
        if f <= 1 {
            u64::MAX
        } else {
            self.rank[self.nodes[f as usize].var as usize]
        }
    }
    fn mk(&mut self, var: u32, lo: B, hi: B) -> B {
        if lo == hi {
            return lo;
        }
        let mut i = mix(var, lo, hi) & self.uniq_mask;
        loop {
            let e = self.uniq[i];
            if e == u32::MAX {
                break;
            }
            if self.nodes[e as usize] == (Node { var, lo, hi }) {
                return e;
            }
            i = (i + 1) & self.uniq_mask;
        }
        let id = self.nodes.len() as u32;
        if self.nodes.len() > self.limit {
            std::panic::panic_any(Budget("decision-diagram node budget"));
        }
        self.nodes.push(Node { var, lo, hi });
        self.uniq[i] = id;
        if self.nodes.len() * 2 > self.uniq.len() {
            let n = self.uniq.len() * 2;
            self.uniq = vec![u32::MAX; n];
            self.uniq_mask = n - 1;
            for k in 2..self.nodes.len() {
                let nd = self.nodes[k];
                let mut i = mix(nd.var, nd.lo, nd.hi) & self.uniq_mask;
                while self.uniq[i] != u32::MAX {
                    i = (i + 1) & self.uniq_mask;
                }
                self.uniq[i] = k as u32;
            }
        }
        id
    }
    #[inline]
    fn cof(&self, f: B, r: u64) -> (B, B) {
        if self.rk(f) == r {
            let n = self.nodes[f as usize];
            (n.lo, n.hi)
        } else {
            (f, f)
        }
    }
    pub fn ite(&mut self, f: B, g: B, h: B) -> B {
        if f == T {
            return g;
        }
        if f == F {
            return h;
        }
        if g == h {
            return g;
        }
        if g == T && h == F {
            return f;
        }
        let g = if g == f { T } else { g };
        let h = if h == f { F } else { h };
        if g == h {
            return g;
        }
        if g == T && h == F {
            return f;
        }
        let ci = mix(f, g, h) & ((1 << CACHE_BITS) - 1);
        let c = self.cache[ci];
        if c.f == f && c.g == g && c.h == h {
            return c.r;
        }
        self.tick(1);
        let r = self.rk(f).min(self.rk(g)).min(self.rk(h));
        let var = if self.rk(f) == r {
            self.nodes[f as usize].var
        } else if self.rk(g) == r {
            self.nodes[g as usize].var
        } else {
            self.nodes[h as usize].var
        };
        let (f0, f1) = self.cof(f, r);
        let (g0, g1) = self.cof(g, r);
        let (h0, h1) = self.cof(h, r);
        let lo = self.ite(f0, g0, h0);
        let hi = self.ite(f1, g1, h1);
        let res = self.mk(var, lo, hi);
        self.cache[ci] = CacheEnt { f, g, h, r: res };
        res
    }
    pub fn not(&mut self, f: B) -> B {
        self.ite(f, F, T)
    }
    pub fn and(&mut self, f: B, g: B) -> B {
        if f > g {
            self.ite(g, f, F)
        } else {
            self.ite(f, g, F)
        }
    }
    pub fn or(&mut self, f: B, g: B) -> B {
        if f > g {
            self.ite(g, T, f)
        } else {
            self.ite(f, T, g)
        }
    }
    pub fn xor(&mut self, f: B, g: B) -> B {
        let n = self.not(g);
        self.ite(f, n, g)
    }
    pub fn and_not(&mut self, f: B, g: B) -> B {
        let n = self.not(g);
        self.and(f, n)
    }
    pub fn implies(&mut self, f: B, g: B) -> bool {
        self.and_not(f, g) == F
    }
    /// A constant if `f` is constant wherever `care` holds, else `f` itself.
    pub fn simplify_const(&mut self, f: B, care: B) -> B {
        if f <= 1 {
            return f;
        }
        if self.and(f, care) == F {
            return F;
        }
        if self.and_not(care, f) == F {
            return T;
        }
        f
    }
    /// A diagram equal to `f` wherever `c` holds, usually simpler.
    pub fn restrict(&mut self, f: B, c: B) -> B {
        let mut memo = HashMap::new();
        self.restrict_rec(f, c, &mut memo)
    }
    fn restrict_rec(&mut self, f: B, c: B, memo: &mut HashMap<(B, B), B>) -> B {
        if f <= 1 || c == T {
            return f;
        }
        if c == F {
            return F;
        }
        if let Some(&r) = memo.get(&(f, c)) {
            return r;
        }
        self.tick(4);
        let (rf, rc) = (self.rk(f), self.rk(c));
        let r = if rc < rf {
            let n = self.nodes[c as usize];
            let d = self.or(n.lo, n.hi);
            self.restrict_rec(f, d, memo)
        } else {
            let n = self.nodes[f as usize];
            let (c0, c1) = self.cof(c, rf);
            if c0 == F {
                self.restrict_rec(n.hi, c1, memo)
            } else if c1 == F {
                self.restrict_rec(n.lo, c0, memo)
            } else {
                let lo = self.restrict_rec(n.lo, c0, memo);
                let hi = self.restrict_rec(n.hi, c1, memo);
                self.mk(n.var, lo, hi)
            }
        };
        memo.insert((f, c), r);
        r
    }
    /// Variables a diagram depends on.
    pub fn support(&self, f: B) -> Vec<u32> {
        let mut seen = std::collections::HashSet::new();
        let mut vars = std::collections::BTreeSet::new();
        let mut st = vec![f];
        while let Some(x) = st.pop() {
            if x <= 1 || !seen.insert(x) {
                continue;
            }
            self.tick(4);
            let n = self.nodes[x as usize];
            vars.insert(n.var);
            st.push(n.lo);
            st.push(n.hi);
        }
        vars.into_iter().collect()
    }
    pub fn has_opaque(&self, f: B) -> bool {
        self.support(f).iter().any(|&v| self.opaque[v as usize])
    }
    /// If the diagram is a single positive atom, its variable.
    pub fn as_atom(&self, f: B) -> Option<u32> {
        if f <= 1 {
            return None;
        }
        let n = self.nodes[f as usize];
        if n.lo == F && n.hi == T {
            Some(n.var)
        } else {
            None
        }
    }
    pub fn var(&mut self, v: u32) -> B {
        self.mk(v, F, T)
    }
    pub fn exists(&mut self, f: B, vars: &std::collections::HashSet<u32>) -> B {
        let mut memo = HashMap::new();
        self.exists_rec(f, vars, &mut memo)
    }
    fn exists_rec(&mut self, f: B, vars: &std::collections::HashSet<u32>, memo: &mut HashMap<B, B>) -> B {
        if f <= 1 {
            return f;
        }
        if let Some(&r) = memo.get(&f) {
            return r;
        }
        let n = self.nodes[f as usize];
        let lo = self.exists_rec(n.lo, vars, memo);
        let hi = self.exists_rec(n.hi, vars, memo);
        let r = if vars.contains(&n.var) {
            self.or(lo, hi)
        } else {
            let v = self.mk(n.var, F, T);
            self.ite(v, hi, lo)
        };
        memo.insert(f, r);
        r
    }
    /// Lift a witness: one assignment on which `f` is true.
    pub fn any_sat(&self, f: B) -> Option<Vec<(u32, bool)>> {
        if f == F {
            return None;
        }
        let mut out = vec![];
        let mut x = f;
        while x > 1 {
            let n = self.nodes[x as usize];
            if n.lo != F {
                out.push((n.var, false));
                x = n.lo;
            } else {
                out.push((n.var, true));
                x = n.hi;
            }
        }
        Some(out)
    }
    pub fn eval(&self, f: B, asg: &HashMap<u32, bool>) -> bool {
        let mut x = f;
        while x > 1 {
            let n = self.nodes[x as usize];
            x = if *asg.get(&n.var).unwrap_or(&false) { n.hi } else { n.lo };
        }
        x == T
    }
    pub fn top(&self, f: B) -> Option<(u32, B, B)> {
        if f <= 1 {
            None
        } else {
            let n = self.nodes[f as usize];
            Some((n.var, n.lo, n.hi))
        }
    }
}

// ---------------------------------------------------------------- bit vectors
pub type V = std::rc::Rc<[B]>;

pub fn vconst(x: u128, w: usize) -> V {
    (0..w).map(|i| if i < 128 && (x >> i) & 1 == 1 { T } else { F }).collect()
}
pub fn as_const(v: &[B]) -> Option<u128> {
    let mut r = 0u128;
    for (i, &b) in v.iter().enumerate() {
        match b {
            F => {}
            T => r |= 1 << i,
            _ => return None,
        }
    }
    Some(r)
}
pub fn zext(v: &[B], w: usize) -> V {
    (0..w).map(|i| if i < v.len() { v[i] } else { F }).collect()
}
impl Bdd {
    pub fn vite(&mut self, c: B, a: &[B], b: &[B]) -> V {
        (0..a.len()).map(|i| self.ite(c, a[i], b[i])).collect()
    }
    /// a + b + cin, returning (sum, carry out, overflow signed)
    pub fn vadd(&mut self, a: &[B], b: &[B], cin: B) -> (V, B, B) {
        let n = a.len();
        let mut c = cin;
        let mut cprev = cin;
        let mut out = Vec::with_capacity(n);
        for i in 0..n {
            let x = self.xor(a[i], b[i]);
            let s = self.xor(x, c);
            let t = self.and(a[i], b[i]);
            let u = self.and(x, c);
            cprev = c;
            c = self.or(t, u);
            out.push(s);
        }
        let ov = self.xor(c, cprev);
        (out.into(), c, ov)
    }
    pub fn vnot(&mut self, a: &[B]) -> V {
        a.iter().map(|&x| self.not(x)).collect()
    }
    /// (difference, borrow, signed overflow)
    pub fn vsub(&mut self, a: &[B], b: &[B]) -> (V, B, B) {
        let nb = self.vnot(b);
        let (s, c, ov) = self.vadd(a, &nb, T);
        (s, self.not(c), ov)
    }
    pub fn vult(&mut self, a: &[B], b: &[B]) -> B {
        // compare from lsb up
        let mut lt = F;
        for i in 0..a.len() {
            let x = self.xor(a[i], b[i]);
            lt = self.ite(x, b[i], lt);
        }
        lt
    }
    pub fn vslt(&mut self, a: &[B], b: &[B]) -> B {
        let n = a.len();
        let mut a2 = a.to_vec();
        let mut b2 = b.to_vec();
        a2[n - 1] = self.not(a[n - 1]);
        b2[n - 1] = self.not(b[n - 1]);
        self.vult(&a2, &b2)
    }
    pub fn veq(&mut self, a: &[B], b: &[B]) -> B {
        let mut r = T;
        for i in (0..a.len()).rev() {
            let x = self.xor(a[i], b[i]);
            r = self.and_not(r, x);
            if r == F {
                break;
            }
        }
        r
    }
    /// Equality where only the cases of g matter: should it grow too large on its own, it is worked
    /// out together with g (and is false elsewhere).
    pub fn veq_in(&mut self, a: &[B], b: &[B], g: B) -> B {
        let limit = self.nodes.len() + 20_000;
        let old = self.limit;
        self.limit = limit.min(old);
        let quick = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.veq(a, b)));
        self.limit = old;
        match quick {
            Ok(r) => return r,
            Err(e) if limit >= old || !matches!(e.downcast_ref::<Budget>(), Some(Budget(m)) if m.contains("node")) => std::panic::resume_unwind(e),
            Err(_) => {}
        }
        let mut r = g;
        for i in (0..a.len()).rev() {
            let (x, y) = (self.restrict(a[i], r), self.restrict(b[i], r));
            let d = self.xor(x, y);
            r = self.and_not(r, d);
            if r == F {
                break;
            }
        }
        r
    }
    pub fn vmul(&mut self, a: &[B], b: &[B]) -> V {
        let n = a.len();
        // iterate over the operand with more constant-zero bits
        let za = a.iter().filter(|&&x| x == F).count();
        let zb = b.iter().filter(|&&x| x == F).count();
        let (a, b) = if za > zb { (b, a) } else { (a, b) };
        let mut acc: V = vconst(0, n);
        for i in 0..n {
            if b[i] == F {
                continue;
            }
            let sh: V = (0..n).map(|k| if k < i { F } else { a[k - i] }).collect();
            let sh: V = sh.iter().map(|&x| self.and(x, b[i])).collect();
            acc = self.vadd(&acc, &sh, F).0;
        }
        acc
    }
    pub fn vudivrem(&mut self, a: &[B], b: &[B]) -> (V, V) {
        let n = a.len();
        let bz = zext(b, n + 1);
        let mut rem: V = vconst(0, n + 1);
        let mut q = vec![F; n];
        for i in (0..n).rev() {
            let mut r2 = vec![a[i]];
            r2.extend_from_slice(&rem[..n]);
            let (d, borrow, _) = self.vsub(&r2, &bz);
            q[i] = self.not(borrow);
            rem = self.vite(borrow, &r2, &d);
        }
        (q.into(), rem[..n].to_vec().into())
    }
    /// shift by a symbolic amount; `fill` for vacated bits; left or right.  Amounts >= width give fill.
    pub fn vshift(&mut self, a: &[B], sh: &[B], left: bool, fill: B) -> V {
        let n = a.len();
        let mut cur: V = a.to_vec().into();
        let mut big = F;
        for (k, &s) in sh.iter().enumerate() {
            if s == F {
                continue;
            }
            let amt = if k < 20 { 1usize << k } else { usize::MAX };
            if amt >= n {
                big = self.or(big, s);
                continue;
            }
            let shifted: V = (0..n)
                .map(|i| {
                    if left {
                        if i < amt { fill } else { cur[i - amt] }
                    } else if i + amt < n {
                        cur[i + amt]
                    } else {
                        fill
                    }
                })
                .collect();
            cur = self.vite(s, &shifted, &cur);
        }
        if big != F {
            let f: V = (0..n).map(|_| fill).collect();
            cur = self.vite(big, &f, &cur);
        }
        cur
    }
    /// Up to `max` distinct values the vector takes where `care` holds; None if there are more.
    pub fn values(&mut self, v: &[B], care: B, max: usize) -> Option<Vec<(u128, B)>> {
        let mut cur: Vec<(u128, B)> = if care == F { vec![] } else { vec![(0, care)] };
        for i in (0..v.len()).rev() {
            if v[i] == F {
                continue;
            }
            let mut nx = Vec::with_capacity(cur.len());
            for (x, g) in cur {
                if v[i] == T {
                    nx.push((x | 1 << i, g));
                    continue;
                }
                let g0 = self.and_not(g, v[i]);
                let g1 = self.and(g, v[i]);
                if g0 != F {
                    nx.push((x, g0));
                }
                if g1 != F {
                    nx.push((x | 1 << i, g1));
                }
            }
            if nx.len() > max {
                return None;
            }
            cur = nx;
        }
        cur.sort_by_key(|e| e.0);
        Some(cur)
    }
}
