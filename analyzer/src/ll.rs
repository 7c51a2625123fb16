//! Reader for the textual LLVM IR that rustc emits (`--emit=llvm-ir`).
use std::collections::HashMap;
use std::rc::Rc;

static POINTER_BYTES: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(8);
static BIG_ENDIAN: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
/// The machine the IR is for: bytes of a pointer, byte order.
pub fn set_machine(bytes: usize, big: bool) {
    POINTER_BYTES.store(bytes, std::sync::atomic::Ordering::Relaxed);
    BIG_ENDIAN.store(big, std::sync::atomic::Ordering::Relaxed);
}
pub fn pb() -> usize {
    POINTER_BYTES.load(std::sync::atomic::Ordering::Relaxed)
}
pub fn pw() -> usize {
    pb() * 8
}
pub fn be() -> bool {
    BIG_ENDIAN.load(std::sync::atomic::Ordering::Relaxed)
}
/// A pointer-sized number taken as a signed one.
pub fn sx(k: u128) -> i64 {
    if pb() == 4 {
        k as u32 as i32 as i64
    } else {
        k as u64 as i64
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Int(usize),
    Ptr,
    Float(usize),
    Void,
    Array(usize, Rc<Ty>),
    Vec(usize, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Other,
}
impl Ty {
    pub fn align(&self) -> usize {
        match self {
            Ty::Int(w) => {
                let b = (w + 7) / 8;
                b.next_power_of_two().min(16)
            }
            Ty::Ptr => pb(),
            Ty::Float(w) => w / 8,
            Ty::Array(_, t) => t.align(),
            Ty::Vec(..) => self.size().next_power_of_two(),
            Ty::Struct(fs, packed) => {
                if *packed {
                    1
                } else {
                    fs.iter().map(|f| f.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    /// Bytes a load or store of this type touches.
    pub fn store_size(&self) -> usize {
        match self {
            Ty::Int(w) => (w + 7) / 8,
            _ => self.size(),
        }
    }
    pub fn size(&self) -> usize {
        match self {
            Ty::Int(w) => {
                let b = (w + 7) / 8;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::Ptr => pb(),
            Ty::Float(w) => w / 8,
            Ty::Array(n, t) => n * t.size(),
            Ty::Vec(n, t) => match **t {
                Ty::Int(w) => (n * w + 7) / 8,
                _ => n * t.size(),
            },
            Ty::Struct(fs, packed) => {
                let mut o = 0;
                for f in fs.iter() {
                    if !packed {
                        let a = f.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += f.size();
                }
                if !packed {
                    let a = self.align();
                    o = (o + a - 1) / a * a;
                }
                o
            }
            _ => 0,
        }
    }
    pub fn field_off(&self, i: usize) -> (usize, Ty) {
        match self {
            Ty::Struct(fs, packed) => {
                let mut o = 0;
                for (k, f) in fs.iter().enumerate() {
                    if !packed {
                        let a = f.align();
                        o = (o + a - 1) / a * a;
                    }
                    if k == i {
                        return (o, f.clone());
                    }
                    o += f.size();
                }
                (o, Ty::Other)
            }
            Ty::Array(_, t) | Ty::Vec(_, t) => (t.size() * i, (**t).clone()),
            _ => (0, Ty::Other),
        }
    }
    pub fn bits(&self) -> usize {
        match self {
            Ty::Int(w) | Ty::Float(w) => *w,
            Ty::Ptr => pw(),
            Ty::Vec(n, t) => n * t.bits(),
            _ => 0,
        }
    }
}

#[derive(Clone, Debug)]
pub enum C {
    Int(u128, usize),
    Null,
    Undef,
    Zero,
    Global(Rc<str>),
    GepC(Box<C>, i64),
    IntToPtr(Box<C>),
    PtrToInt(Box<C>),
    Agg(Vec<(Ty, C)>),
    Bytes(Rc<[u8]>),
    Other(String),
}
#[derive(Clone, Debug)]
pub enum Op {
    L(usize),
    K(C),
}
#[derive(Clone, Debug)]
pub enum I {
    Bin(&'static str, Ty, Op, Op),
    Cast(&'static str, Ty, Op, Ty),
    Icmp(&'static str, Ty, Op, Op),
    Select(Ty, Op, Ty, Op, Op),
    Alloca(usize),
    Load(Ty, Op),
    Store(Ty, Op, Op),
    /// base, constant byte offset, (index, index type, scale)
    Gep(Op, i64, Vec<(Op, Ty, i64)>),
    Call(Ty, Op, Vec<(Ty, Op)>, bool),
    Extract(Ty, Op, Vec<usize>),
    Insert(Ty, Op, Ty, Op, Vec<usize>),
    Phi(Ty, Vec<(Op, usize)>),
    Freeze(Ty, Op),
    /// anything the analysis does not interpret: name, operands, result type
    Opaque(String, Vec<(Ty, Op)>, Ty),
}
#[derive(Clone, Debug)]
pub struct Inst {
    pub dst: Option<usize>,
    pub i: I,
}
#[derive(Clone, Debug)]
pub enum Term {
    Br(usize),
    Cond(Op, usize, usize),
    Switch(Ty, Op, usize, Vec<(u128, usize)>),
    Ret(Option<(Ty, Op)>),
    Unreachable,
    None,
}
#[derive(Clone, Debug)]
pub struct Block {
    pub name: String,
    pub insts: Vec<Inst>,
    pub term: Term,
}
pub struct Func {
    pub name: Rc<str>,
    pub module: usize,
    pub params: Vec<(Ty, usize)>,
    pub ret: Ty,
    pub blocks: Vec<Block>,
    pub nlocals: usize,
    pub local_names: Vec<String>,
}
#[derive(Clone)]
pub struct Global {
    pub ty: Ty,
    pub init: Option<C>,
    pub constant: bool,
    pub align: usize,
}
pub struct Module {
    pub name: String,
    pub funcs: HashMap<Rc<str>, Rc<Func>>,
    pub globals: HashMap<Rc<str>, Rc<Global>>,
    pub aliases: HashMap<Rc<str>, Rc<str>>,
    /// declared functions: name -> noreturn
    pub decls: HashMap<Rc<str>, bool>,
    pub unparsed: Vec<String>,
}

// ------------------------------------------------------------------ tokens
#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Id(String),    // bare word
    Loc(String),   // %name
    Glo(String),   // @name
    Num(String),   // number (possibly negative / float)
    Str(Vec<u8>),  // c"..." or "..."
    P(char),       // punctuation
    Meta,          // ! (stop)
    Attr(String),  // #n
}

fn lex(s: &str) -> Vec<Tok> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = vec![];
    let word = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    fn quoted(b: &[u8], mut i: usize) -> (Vec<u8>, usize) {
        // b[i] is just after the opening quote
        let mut v = vec![];
        while i < b.len() && b[i] != b'"' {
            if b[i] == b'\\' && i + 2 < b.len() {
                let h = std::str::from_utf8(&b[i + 1..i + 3]).unwrap_or("");
                if let Ok(x) = u8::from_str_radix(h, 16) {
                    v.push(x);
                    i += 3;
                    continue;
                }
            }
            v.push(b[i]);
            i += 1;
        }
        (v, i + 1)
    }
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' => i += 1,
            b';' => break,
            b'%' | b'@' => {
                let (name, j) = if i + 1 < b.len() && b[i + 1] == b'"' {
                    let (v, j) = quoted(b, i + 2);
                    (String::from_utf8_lossy(&v).into_owned(), j)
                } else {
                    let mut j = i + 1;
                    while j < b.len() && word(b[j]) {
                        j += 1;
                    }
                    (s[i + 1..j].to_string(), j)
                };
                out.push(if c == b'%' { Tok::Loc(name) } else { Tok::Glo(name) });
                i = j;
            }
            b'"' => {
                let (v, j) = quoted(b, i + 1);
                out.push(Tok::Str(v));
                i = j;
            }
            b'!' => {
                out.push(Tok::Meta);
                i += 1;
            }
            b'#' => {
                let mut j = i + 1;
                while j < b.len() && b[j].is_ascii_digit() {
                    j += 1;
                }
                out.push(Tok::Attr(s[i + 1..j].to_string()));
                i = j;
            }
            b'0'..=b'9' | b'-' => {
                let mut j = i + 1;
                while j < b.len() && (word(b[j]) || (b[j] == b'+' && b[j - 1] == b'e')) {
                    j += 1;
                }
                out.push(Tok::Num(s[i..j].to_string()));
                i = j;
            }
            _ if c.is_ascii_alphabetic() || c == b'_' || c == b'$' || c == b'.' => {
                let mut j = i + 1;
                while j < b.len() && word(b[j]) {
                    j += 1;
                }
                let w = &s[i..j];
                if w == "c" && j < b.len() && b[j] == b'"' {
                    let (v, k) = quoted(b, j + 1);
                    out.push(Tok::Str(v));
                    i = k;
                } else {
                    out.push(Tok::Id(w.to_string()));
                    i = j;
                }
            }
            _ => {
                out.push(Tok::P(c as char));
                i += 1;
            }
        }
    }
    out
}

type R<T> = Result<T, String>;

struct P<'a> {
    t: &'a [Tok],
    i: usize,
    types: &'a HashMap<String, Ty>,
    // None at module level
    locals: Option<&'a mut Locals>,
}
#[derive(Default)]
struct Locals {
    map: HashMap<String, usize>,
    names: Vec<String>,
}
impl Locals {
    fn get(&mut self, n: &str) -> usize {
        if let Some(&i) = self.map.get(n) {
            return i;
        }
        let i = self.names.len();
        self.names.push(n.to_string());
        self.map.insert(n.to_string(), i);
        i
    }
}

impl<'a> P<'a> {
    fn peek(&self) -> Option<&Tok> {
        self.t.get(self.i)
    }
    fn is_p(&self, c: char) -> bool {
        self.peek() == Some(&Tok::P(c))
    }
    fn is_id(&self, s: &str) -> bool {
        matches!(self.peek(), Some(Tok::Id(x)) if x == s)
    }
    fn eat_p(&mut self, c: char) -> bool {
        if self.is_p(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn eat_id(&mut self, s: &str) -> bool {
        if self.is_id(s) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn want(&mut self, c: char) -> R<()> {
        if self.eat_p(c) {
            Ok(())
        } else {
            Err(format!("expected {c:?} at {:?}", self.peek()))
        }
    }
    fn num(&mut self) -> R<i128> {
        match self.peek() {
            Some(Tok::Num(n)) => {
                let n = n.parse::<i128>().map_err(|e| format!("num {n}: {e}"))?;
                self.i += 1;
                Ok(n)
            }
            x => Err(format!("expected number at {x:?}")),
        }
    }
    fn skip_parens(&mut self) {
        // at '('
        let mut d = 0;
        while self.i < self.t.len() {
            if self.is_p('(') {
                d += 1;
            } else if self.is_p(')') {
                d -= 1;
                if d == 0 {
                    self.i += 1;
                    return;
                }
            }
            self.i += 1;
        }
    }
    fn at_type(&self) -> bool {
        match self.peek() {
            Some(Tok::Id(s)) => is_type_word(s),
            Some(Tok::P('[')) | Some(Tok::P('{')) | Some(Tok::P('<')) => true,
            Some(Tok::Loc(n)) => self.types.contains_key(n),
            _ => false,
        }
    }
    fn ty(&mut self) -> R<Ty> {
        let t = match self.peek() {
            Some(Tok::Id(s)) => {
                let r = match s.as_str() {
                    "ptr" => Ty::Ptr,
                    "void" => Ty::Void,
                    "float" => Ty::Float(32),
                    "double" => Ty::Float(64),
                    "half" => Ty::Float(16),
                    "label" | "metadata" | "token" => Ty::Other,
                    _ if s.starts_with('i') => Ty::Int(s[1..].parse().map_err(|_| format!("type {s}"))?),
                    _ => return Err(format!("type {s}")),
                };
                self.i += 1;
                r
            }
            Some(Tok::Loc(n)) => {
                let r = self.types.get(n).cloned().unwrap_or(Ty::Other);
                self.i += 1;
                r
            }
            Some(Tok::P('[')) => {
                self.i += 1;
                let n = self.num()? as usize;
                if !self.eat_id("x") {
                    return Err("array x".into());
                }
                let t = self.ty()?;
                self.want(']')?;
                Ty::Array(n, Rc::new(t))
            }
            Some(Tok::P('{')) => {
                self.i += 1;
                let mut fs = vec![];
                while !self.eat_p('}') {
                    fs.push(self.ty()?);
                    self.eat_p(',');
                }
                Ty::Struct(Rc::new(fs), false)
            }
            Some(Tok::P('<')) => {
                self.i += 1;
                if self.eat_p('{') {
                    let mut fs = vec![];
                    while !self.eat_p('}') {
                        fs.push(self.ty()?);
                        self.eat_p(',');
                    }
                    self.want('>')?;
                    Ty::Struct(Rc::new(fs), true)
                } else {
                    let n = self.num()? as usize;
                    self.eat_id("x");
                    let t = self.ty()?;
                    self.want('>')?;
                    Ty::Vec(n, Rc::new(t))
                }
            }
            x => return Err(format!("type at {x:?}")),
        };
        // function type: `void (ptr, i32)`
        Ok(t)
    }
    /// Skip parameter / return attributes.
    fn attrs(&mut self) {
        loop {
            match self.peek() {
                Some(Tok::Id(s)) if !is_value_word(s) && !is_type_word(s) => {
                    let al = s == "align";
                    self.i += 1;
                    if self.is_p('(') {
                        self.skip_parens();
                    } else if al {
                        if let Some(Tok::Num(_)) = self.peek() {
                            self.i += 1;
                        }
                    }
                }
                Some(Tok::Attr(_)) => self.i += 1,
                Some(Tok::Str(_)) if matches!(self.t.get(self.i + 1), Some(Tok::P('='))) => self.i += 3,
                _ => return,
            }
        }
    }
    fn typed(&mut self) -> R<(Ty, Op)> {
        let t = self.ty()?;
        self.attrs();
        let v = self.val(&t)?;
        Ok((t, v))
    }
    fn val(&mut self, t: &Ty) -> R<Op> {
        if let Some(Tok::Loc(n)) = self.peek() {
            let n = n.clone();
            self.i += 1;
            let l = self.locals.as_mut().ok_or("local at module level")?;
            return Ok(Op::L(l.get(&n)));
        }
        Ok(Op::K(self.cst(t)?))
    }
    fn cst(&mut self, t: &Ty) -> R<C> {
        match self.peek().cloned() {
            Some(Tok::Glo(n)) => {
                self.i += 1;
                Ok(C::Global(n.into()))
            }
            Some(Tok::Num(s)) => {
                self.i += 1;
                match t {
                    Ty::Int(w) => {
                        let x = s.parse::<i128>().map(|x| x as u128).or_else(|_| s.parse::<u128>());
                        match x {
                            Ok(x) => Ok(C::Int(trunc(x, *w), *w)),
                            Err(_) => Ok(C::Other(s)),
                        }
                    }
                    Ty::Float(w) => Ok(parse_float(&s, *w).map(|x| C::Int(x, *w)).unwrap_or(C::Other(s))),
                    _ => Err(format!("number {s} of type {t:?}")),
                }
            }
            Some(Tok::Id(s)) => {
                self.i += 1;
                match s.as_str() {
                    _ if s.starts_with("f0x") => Ok(match (u64::from_str_radix(&s[3..], 16), t) {
                        (Ok(x), Ty::Float(w)) => C::Int(x as u128, *w),
                        _ => C::Other(s.clone()),
                    }),
                    "true" => Ok(C::Int(1, 1)),
                    "false" => Ok(C::Int(0, 1)),
                    "null" => Ok(C::Null),
                    "undef" | "poison" => Ok(C::Undef),
                    "zeroinitializer" | "none" => Ok(C::Zero),
                    "splat" => {
                        self.want('(')?;
                        let (et, v) = self.typed()?;
                        self.want(')')?;
                        match (t, v) {
                            (Ty::Vec(n, _), Op::K(c)) => Ok(C::Agg((0..*n).map(|_| (et.clone(), c.clone())).collect())),
                            _ => Ok(C::Other("splat".into())),
                        }
                    }
                    "getelementptr" => {
                        while let Some(Tok::Id(x)) = self.peek() {
                            if is_type_word(x) {
                                break;
                            }
                            self.i += 1;
                            if self.is_p('(') && (matches!(self.t.get(self.i - 1), Some(Tok::Id(x)) if x == "inrange")) {
                                self.skip_parens();
                            }
                        }
                        self.want('(')?;
                        let bt = self.ty()?;
                        self.want(',')?;
                        let (_, b) = self.typed()?;
                        let b = match b {
                            Op::K(c) => c,
                            _ => return Err("gep const base".into()),
                        };
                        let mut off = 0i64;
                        let mut cur = bt.clone();
                        let mut first = true;
                        while self.eat_p(',') {
                            self.eat_id("inrange");
                            let (it, ix) = self.typed()?;
                            let k = match ix {
                                Op::K(C::Int(k, w)) => sext(k, w),
                                Op::K(C::Zero) => 0,
                                _ => return Err("gep const index".into()),
                            };
                            let _ = it;
                            if first {
                                off += k * bt.size() as i64;
                                first = false;
                            } else {
                                let (o, nt) = cur.field_off(k as usize);
                                off += o as i64;
                                cur = nt;
                            }
                        }
                        self.want(')')?;
                        Ok(C::GepC(Box::new(b), off))
                    }
                    "inttoptr" | "ptrtoint" | "bitcast" | "ptrtoaddr" => {
                        self.want('(')?;
                        let (_, v) = self.typed()?;
                        if !self.eat_id("to") {
                            return Err("cast to".into());
                        }
                        self.ty()?;
                        self.want(')')?;
                        let c = match v {
                            Op::K(c) => c,
                            _ => return Err("cast const".into()),
                        };
                        Ok(match s.as_str() {
                            "inttoptr" => C::IntToPtr(Box::new(c)),
                            "ptrtoint" | "ptrtoaddr" => C::PtrToInt(Box::new(c)),
                            _ => c,
                        })
                    }
                    _ => {
                        if self.is_p('(') {
                            self.skip_parens();
                        }
                        Ok(C::Other(s))
                    }
                }
            }
            Some(Tok::Str(v)) => {
                self.i += 1;
                Ok(C::Bytes(v.into()))
            }
            Some(Tok::P('[')) | Some(Tok::P('{')) | Some(Tok::P('<')) => {
                let open = self.t[self.i].clone();
                self.i += 1;
                let packed = open == Tok::P('<') && self.eat_p('{');
                let mut v = vec![];
                let close = match open {
                    Tok::P('[') => ']',
                    Tok::P('{') => '}',
                    _ => {
                        if packed {
                            '}'
                        } else {
                            '>'
                        }
                    }
                };
                while !self.eat_p(close) {
                    let (t, o) = self.typed()?;
                    match o {
                        Op::K(c) => v.push((t, c)),
                        _ => return Err("non-const aggregate".into()),
                    }
                    self.eat_p(',');
                }
                if packed {
                    self.want('>')?;
                }
                Ok(C::Agg(v))
            }
            Some(Tok::Meta) => {
                // metadata operand: swallow up to , or )
                self.i += 1;
                let mut d = 0;
                while self.i < self.t.len() {
                    match &self.t[self.i] {
                        Tok::P('(') | Tok::P('{') => d += 1,
                        Tok::P(')') | Tok::P('}') if d == 0 => break,
                        Tok::P(')') | Tok::P('}') => d -= 1,
                        Tok::P(',') if d == 0 => break,
                        _ => {}
                    }
                    self.i += 1;
                }
                Ok(C::Undef)
            }
            x => Err(format!("value at {x:?}")),
        }
    }
    fn label(&mut self) -> R<String> {
        if !self.eat_id("label") {
            return Err("label".into());
        }
        match self.peek() {
            Some(Tok::Loc(n)) => {
                let n = n.clone();
                self.i += 1;
                Ok(n)
            }
            x => Err(format!("label at {x:?}")),
        }
    }
}
fn parse_float(s: &str, w: usize) -> Option<u128> {
    if let Some(h) = s.strip_prefix("0x") {
        let bits = u64::from_str_radix(h, 16).ok()?;
        return Some(if w == 32 { (f64::from_bits(bits) as f32).to_bits() as u128 } else { bits as u128 });
    }
    let f: f64 = s.parse().ok()?;
    Some(if w == 32 { (f as f32).to_bits() as u128 } else { f.to_bits() as u128 })
}
pub fn trunc(x: u128, w: usize) -> u128 {
    if w >= 128 {
        x
    } else {
        x & ((1u128 << w) - 1)
    }
}
pub fn sext(x: u128, w: usize) -> i64 {
    if w >= 64 {
        x as u64 as i64
    } else {
        let s = 64 - w;
        (((x as u64) << s) as i64) >> s
    }
}
fn is_type_word(s: &str) -> bool {
    matches!(s, "ptr" | "void" | "float" | "double" | "half" | "label" | "metadata" | "token")
        || (s.len() > 1 && s.starts_with('i') && s[1..].bytes().all(|c| c.is_ascii_digit()))
}
fn is_value_word(s: &str) -> bool {
    s.starts_with("f0x")
        || matches!(
        s,
        "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "getelementptr" | "inttoptr" | "ptrtoint" | "ptrtoaddr" | "bitcast" | "splat" | "add" | "sub" | "trunc" | "xor"
    )
}

const BINS: &[&str] = &[
    "add", "sub", "mul", "udiv", "urem", "sdiv", "srem", "and", "or", "xor", "shl", "lshr", "ashr",
];
const CASTS: &[&str] = &["trunc", "zext", "sext", "ptrtoint", "inttoptr", "bitcast", "ptrtoaddr"];
const PREDS: &[&str] = &["eq", "ne", "ult", "ule", "ugt", "uge", "slt", "sle", "sgt", "sge"];

fn intern(list: &[&'static str], s: &str) -> Option<&'static str> {
    list.iter().find(|x| **x == s).copied()
}

pub fn parse_module(text: &str, name: &str, midx: usize) -> Module {
    for l in text.lines().take(20) {
        if let Some(d) = l.strip_prefix("target datalayout = ") {
            set_machine(if d.contains("-p:32:") { 4 } else { 8 }, d.starts_with("\"E"));
        }
    }
    let mut m = Module {
        name: name.to_string(),
        funcs: HashMap::new(),
        globals: HashMap::new(),
        aliases: HashMap::new(),
        decls: HashMap::new(),
        unparsed: vec![],
    };
    let lines: Vec<&str> = text.lines().collect();
    let mut types: HashMap<String, Ty> = HashMap::new();
    let mut noreturn_groups: HashMap<String, bool> = HashMap::new();
    for l in &lines {
        if l.starts_with("attributes #") {
            let n: String = l["attributes #".len()..].chars().take_while(|c| c.is_ascii_digit()).collect();
            noreturn_groups.insert(n, l.contains(" noreturn "));
        } else if l.starts_with('%') && l.contains(" = type ") {
            // two passes for forward references: names first
            let t = lex(l);
            if let Some(Tok::Loc(n)) = t.first() {
                types.insert(n.clone(), Ty::Other);
            }
        }
    }
    for _ in 0..3 {
        for l in &lines {
            if l.starts_with('%') && l.contains(" = type ") {
                let t = lex(l);
                if let Some(Tok::Loc(n)) = t.first() {
                    let n = n.clone();
                    let mut p = P { t: &t, i: 3, types: &types, locals: None };
                    if let Ok(ty) = p.ty() {
                        types.insert(n, ty);
                    }
                }
            }
        }
    }
    let mut i = 0;
    while i < lines.len() {
        let l = lines[i];
        if l.starts_with('@') {
            if let Err(e) = parse_global(l, &types, &mut m) {
                m.unparsed.push(format!("{e}: {}", &l[..l.len().min(120)]));
            }
        } else if l.starts_with("declare ") {
            let t = lex(l);
            let mut nm = None;
            let mut nr = l.contains(" noreturn ");
            for x in &t {
                match x {
                    Tok::Glo(n) if nm.is_none() => nm = Some(n.clone()),
                    Tok::Attr(a) => nr |= *noreturn_groups.get(a).unwrap_or(&false),
                    _ => {}
                }
            }
            if let Some(n) = nm {
                m.decls.insert(n.into(), nr);
            }
        } else if l.starts_with("define ") {
            let mut j = i + 1;
            while j < lines.len() && lines[j] != "}" {
                j += 1;
            }
            match parse_func(l, &lines[i + 1..j], &types, midx) {
                Ok(f) => {
                    m.funcs.insert(f.name.clone(), Rc::new(f));
                }
                Err(e) => m.unparsed.push(format!("{e} in {}", &l[..l.len().min(160)])),
            }
            i = j;
        }
        i += 1;
    }
    m
}

fn parse_global(l: &str, types: &HashMap<String, Ty>, m: &mut Module) -> R<()> {
    let t = lex(l);
    let name: Rc<str> = match &t[0] {
        Tok::Glo(n) => n.as_str().into(),
        _ => return Err("global".into()),
    };
    let mut p = P { t: &t, i: 2, types, locals: None };
    let mut constant = false;
    let mut external = false;
    loop {
        match p.peek() {
            Some(Tok::Id(s)) if s == "alias" => {
                p.i += 1;
                p.ty()?;
                if p.is_p('(') {
                    p.skip_parens();
                }
                p.want(',')?;
                let t = p.ty()?;
                if let C::Global(g) = p.cst(&t)? {
                    m.aliases.insert(name, g);
                }
                return Ok(());
            }
            Some(Tok::Id(s)) if s == "constant" || s == "global" => {
                constant = s == "constant";
                p.i += 1;
                break;
            }
            Some(Tok::Id(s)) if is_type_word(s) => return Err("global kind".into()),
            Some(Tok::Id(s)) => {
                if s == "external" {
                    external = true;
                }
                p.i += 1;
                if p.is_p('(') {
                    p.skip_parens();
                }
            }
            x => return Err(format!("global at {x:?}")),
        }
    }
    let ty = p.ty()?;
    let init = if external && !matches!(p.peek(), Some(Tok::P('[')) | Some(Tok::Str(_)) | Some(Tok::Id(_))) { None } else if p.i < t.len() && !p.is_p(',') { Some(p.cst(&ty)?) } else { None };
    let mut align = 1;
    while p.i < t.len() {
        if p.eat_id("align") {
            align = p.num()? as usize;
        } else {
            p.i += 1;
        }
    }
    m.globals.insert(name, Rc::new(Global { ty, init, constant, align }));
    Ok(())
}

fn parse_func(head: &str, body: &[&str], types: &HashMap<String, Ty>, midx: usize) -> R<Func> {
    let t = lex(head);
    let mut locals = Locals::default();
    let gi = t.iter().position(|x| matches!(x, Tok::Glo(_))).ok_or("no name")?;
    let name: Rc<str> = match &t[gi] {
        Tok::Glo(n) => n.as_str().into(),
        _ => unreachable!(),
    };
    // return type: parse from the start, skipping words until a type parses right before the name
    let mut ret = Ty::Void;
    {
        let mut p = P { t: &t[..gi], i: 1, types, locals: None };
        loop {
            p.attrs();
            if p.i >= gi {
                break;
            }
            if p.at_type() {
                ret = p.ty()?;
            } else {
                p.i += 1;
            }
        }
    }
    let mut params = vec![];
    {
        let mut p = P { t: &t, i: gi + 1, types, locals: Some(&mut locals) };
        p.want('(')?;
        let mut k = 0;
        while !p.eat_p(')') {
            if p.is_p('.') || p.is_id("...") {
                p.i += 1;
                continue;
            }
            let ty = p.ty()?;
            p.attrs();
            let nm = match p.peek() {
                Some(Tok::Loc(n)) => {
                    let n = n.clone();
                    p.i += 1;
                    n
                }
                _ => format!("{k}"),
            };
            let ix = p.locals.as_mut().unwrap().get(&nm);
            params.push((ty, ix));
            k += 1;
            p.eat_p(',');
        }
    }
    // block names
    let mut bmap: HashMap<String, usize> = HashMap::new();
    let mut blocks: Vec<Block> = vec![];
    let label_of = |l: &str| -> Option<String> {
        if l.starts_with(' ') || l.is_empty() || l.starts_with(';') {
            return None;
        }
        let l0 = if l.starts_with('"') {
            let e = l[1..].find('"')? + 1;
            if l.as_bytes().get(e + 1) != Some(&b':') {
                return None;
            }
            return Some(l[1..e].to_string());
        } else {
            l
        };
        let e = l0.find(':')?;
        Some(l0[..e].to_string())
    };
    let mut first = true;
    for l in body {
        if let Some(n) = label_of(l) {
            bmap.insert(n.clone(), blocks.len());
            blocks.push(Block { name: n, insts: vec![], term: Term::None });
            first = false;
        } else if first && !l.trim().is_empty() && !l.trim_start().starts_with(';') {
            bmap.insert("%entry".into(), 0);
            blocks.push(Block { name: "%entry".into(), insts: vec![], term: Term::None });
            first = false;
        }
    }
    let mut cur = 0usize;
    let mut started = false;
    let mut k = 0;
    while k < body.len() {
        let l = body[k];
        k += 1;
        if let Some(n) = label_of(l) {
            cur = bmap[&n];
            started = true;
            continue;
        }
        let tr = l.trim();
        if tr.is_empty() || tr.starts_with(';') || tr.starts_with("#dbg_") {
            continue;
        }
        if !started {
            cur = 0;
            started = true;
        }
        let mut full = l.to_string();
        let core = strip_comment(l);
        if core.trim_end().ends_with('[') {
            full = core.to_string();
            while k < body.len() {
                let s = strip_comment(body[k]).to_string();
                k += 1;
                full.push(' ');
                full.push_str(&s);
                if s.trim_start().starts_with(']') {
                    break;
                }
            }
        }
        let toks = lex(&full);
        if toks.is_empty() {
            continue;
        }
        // cut trailing metadata: first Meta at paren depth 0
        let mut d = 0;
        let mut end = toks.len();
        for (x, tk) in toks.iter().enumerate() {
            match tk {
                Tok::P('(') => d += 1,
                Tok::P(')') => d -= 1,
                Tok::Meta if d == 0 => {
                    end = x;
                    break;
                }
                _ => {}
            }
        }
        let mut toks: Vec<Tok> = toks[..end].to_vec();
        if end > 0 && toks.last() == Some(&Tok::P(',')) {
            toks.pop();
        }
        parse_inst(&toks, types, &mut locals, &bmap, &mut blocks[cur]).map_err(|e| format!("{e} [{}]", tr.chars().take(160).collect::<String>()))?;
    }
    Ok(Func { name, module: midx, params, ret, blocks, nlocals: locals.names.len(), local_names: locals.names })
}
fn strip_comment(l: &str) -> &str {
    // a ';' outside quotes starts a comment
    let b = l.as_bytes();
    let mut q = false;
    for i in 0..b.len() {
        if b[i] == b'"' {
            q = !q;
        } else if b[i] == b';' && !q {
            return &l[..i];
        }
    }
    l
}

fn parse_inst(t: &[Tok], types: &HashMap<String, Ty>, locals: &mut Locals, bmap: &HashMap<String, usize>, blk: &mut Block) -> R<()> {
    let mut p = P { t, i: 0, types, locals: Some(locals) };
    let mut dst = None;
    if let (Some(Tok::Loc(n)), Some(Tok::P('='))) = (t.first(), t.get(1)) {
        dst = Some(p.locals.as_mut().unwrap().get(n));
        p.i = 2;
    }
    let op = match p.peek() {
        Some(Tok::Id(s)) => s.clone(),
        x => return Err(format!("op at {x:?}")),
    };
    p.i += 1;
    let blk_of = |n: String| bmap.get(&n).copied().ok_or(format!("label {n}"));
    let i = match op.as_str() {
        "ret" => {
            if p.eat_id("void") {
                blk.term = Term::Ret(None);
            } else {
                let (t, v) = p.typed()?;
                blk.term = Term::Ret(Some((t, v)));
            }
            return Ok(());
        }
        "unreachable" => {
            blk.term = Term::Unreachable;
            return Ok(());
        }
        "br" => {
            if p.is_id("label") {
                let l = p.label()?;
                blk.term = Term::Br(blk_of(l)?);
            } else {
                let (_, c) = p.typed()?;
                p.want(',')?;
                let a = p.label()?;
                p.want(',')?;
                let b = p.label()?;
                blk.term = Term::Cond(c, blk_of(a)?, blk_of(b)?);
            }
            return Ok(());
        }
        "switch" => {
            let (ty, v) = p.typed()?;
            p.want(',')?;
            let d = blk_of(p.label()?)?;
            p.want('[')?;
            let mut cs = vec![];
            while !p.eat_p(']') {
                let (_, c) = p.typed()?;
                p.want(',')?;
                let l = blk_of(p.label()?)?;
                match c {
                    Op::K(C::Int(x, _)) => cs.push((x, l)),
                    _ => return Err("switch case".into()),
                }
            }
            blk.term = Term::Switch(ty, v, d, cs);
            return Ok(());
        }
        "invoke" | "resume" | "indirectbr" | "callbr" => return Err(format!("unsupported terminator {op}")),
        "alloca" => {
            let ty = p.ty()?;
            let mut n = 1;
            if p.eat_p(',') && p.at_type() {
                if let (_, Op::K(C::Int(k, _))) = p.typed()? {
                    n = k as usize;
                }
            }
            I::Alloca(ty.size() * n)
        }
        "load" => {
            p.eat_id("volatile");
            p.eat_id("atomic");
            let ty = p.ty()?;
            p.want(',')?;
            let (_, v) = p.typed()?;
            I::Load(ty, v)
        }
        "store" => {
            p.eat_id("volatile");
            p.eat_id("atomic");
            let (ty, v) = p.typed()?;
            p.want(',')?;
            let (_, q) = p.typed()?;
            I::Store(ty, v, q)
        }
        "getelementptr" => {
            p.attrs();
            let bt = p.ty()?;
            p.want(',')?;
            let (_, b) = p.typed()?;
            let mut off = 0i64;
            let mut var = vec![];
            let mut cur = bt.clone();
            let mut first = true;
            while p.eat_p(',') {
                let (it, ix) = p.typed()?;
                let scale_ty = if first { bt.clone() } else { cur.clone() };
                match ix {
                    Op::K(C::Int(k, w)) => {
                        let k = sext(k, w);
                        if first {
                            off += k * bt.size() as i64;
                        } else {
                            let (o, nt) = scale_ty.field_off(k as usize);
                            off += o as i64;
                            cur = nt;
                        }
                    }
                    ix => {
                        let sc = if first {
                            bt.size()
                        } else {
                            match &scale_ty {
                                Ty::Array(_, t) | Ty::Vec(_, t) => {
                                    let s = t.size();
                                    cur = (**t).clone();
                                    s
                                }
                                _ => return Err("gep index".into()),
                            }
                        };
                        var.push((ix, it, sc as i64));
                    }
                }
                first = false;
            }
            I::Gep(b, off, var)
        }
        "icmp" => {
            p.eat_id("samesign");
            let pr = match p.peek() {
                Some(Tok::Id(s)) => intern(PREDS, s).ok_or(format!("pred {s}"))?,
                x => return Err(format!("pred {x:?}")),
            };
            p.i += 1;
            let (ty, a) = p.typed()?;
            p.want(',')?;
            let b = p.val(&ty)?;
            I::Icmp(pr, ty, a, b)
        }
        "select" => {
            p.attrs();
            let (ct, c) = p.typed()?;
            p.want(',')?;
            let (ty, a) = p.typed()?;
            p.want(',')?;
            let (_, b) = p.typed()?;
            I::Select(ct, c, ty, a, b)
        }
        "phi" => {
            p.attrs();
            let ty = p.ty()?;
            let mut v = vec![];
            loop {
                p.want('[')?;
                let o = p.val(&ty)?;
                p.want(',')?;
                let l = match p.peek() {
                    Some(Tok::Loc(n)) => n.clone(),
                    x => return Err(format!("phi label {x:?}")),
                };
                p.i += 1;
                p.want(']')?;
                // the implicit entry block is numbered
                let b = bmap.get(&l).copied().or_else(|| bmap.get("%entry").copied()).ok_or(format!("label {l}"))?;
                v.push((o, b));
                if !p.eat_p(',') {
                    break;
                }
            }
            I::Phi(ty, v)
        }
        "extractvalue" => {
            let (ty, a) = p.typed()?;
            let mut ix = vec![];
            while p.eat_p(',') {
                ix.push(p.num()? as usize);
            }
            I::Extract(ty, a, ix)
        }
        "insertvalue" => {
            let (ty, a) = p.typed()?;
            p.want(',')?;
            let (vt, v) = p.typed()?;
            let mut ix = vec![];
            while p.eat_p(',') {
                ix.push(p.num()? as usize);
            }
            I::Insert(ty, a, vt, v, ix)
        }
        "freeze" => {
            let (ty, a) = p.typed()?;
            I::Freeze(ty, a)
        }
        "tail" | "musttail" | "notail" | "call" => {
            if op != "call" {
                p.eat_id("call");
            }
            // return attributes / fast-math / cc
            loop {
                p.attrs();
                if p.at_type() || p.i >= t.len() {
                    break;
                }
                p.i += 1;
            }
            let ret = p.ty()?;
            // optional function type (varargs)
            if p.is_p('(') {
                p.skip_parens();
            }
            p.attrs();
            let callee = match p.peek().cloned() {
                Some(Tok::Id(s)) if s == "asm" => {
                    return Err("inline asm".into());
                }
                _ => p.val(&Ty::Ptr)?,
            };
            p.want('(')?;
            let mut args = vec![];
            while !p.eat_p(')') {
                args.push(p.typed()?);
                p.eat_p(',');
            }
            I::Call(ret, callee, args, false)
        }
        _ if intern(BINS, &op).is_some() => {
            while let Some(Tok::Id(s)) = p.peek() {
                if matches!(s.as_str(), "nuw" | "nsw" | "exact" | "disjoint") {
                    p.i += 1;
                } else {
                    break;
                }
            }
            let (ty, a) = p.typed()?;
            p.want(',')?;
            let b = p.val(&ty)?;
            I::Bin(intern(BINS, &op).unwrap(), ty, a, b)
        }
        _ if intern(CASTS, &op).is_some() => {
            while let Some(Tok::Id(s)) = p.peek() {
                if matches!(s.as_str(), "nuw" | "nsw" | "nneg") {
                    p.i += 1;
                } else {
                    break;
                }
            }
            let (ty, a) = p.typed()?;
            if !p.eat_id("to") {
                return Err("cast".into());
            }
            let to = p.ty()?;
            I::Cast(intern(CASTS, &op).unwrap(), ty, a, to)
        }
        "fadd" | "fsub" | "fmul" | "fdiv" | "frem" | "fcmp" => {
            let mut tag = op.clone();
            loop {
                match p.peek() {
                    Some(Tok::Id(s)) if !is_type_word(s) => {
                        tag.push(' ');
                        tag.push_str(s);
                        p.i += 1;
                    }
                    _ => break,
                }
            }
            let (ty, a) = p.typed()?;
            p.want(',')?;
            let b = p.val(&ty)?;
            let rt = if op == "fcmp" { Ty::Int(1) } else { ty.clone() };
            I::Opaque(tag, vec![(ty.clone(), a), (ty, b)], rt)
        }
        "uitofp" | "sitofp" | "fptoui" | "fptosi" | "fpext" | "fptrunc" | "addrspacecast" => {
            while let Some(Tok::Id(s)) = p.peek() {
                if is_type_word(s) {
                    break;
                }
                p.i += 1;
            }
            let (ty, a) = p.typed()?;
            p.eat_id("to");
            let to = p.ty()?;
            I::Opaque(format!("{op} {ty:?} {to:?}"), vec![(ty, a)], to)
        }
        "fneg" => {
            let (ty, a) = p.typed()?;
            I::Opaque(op, vec![(ty.clone(), a)], ty)
        }
        "extractelement" => {
            let (ty, a) = p.typed()?;
            p.want(',')?;
            let (_, ix) = p.typed()?;
            match ix {
                Op::K(C::Int(k, _)) => I::Extract(ty, a, vec![k as usize]),
                _ => return Err("extractelement".into()),
            }
        }
        "insertelement" => {
            let (ty, a) = p.typed()?;
            p.want(',')?;
            let (vt, v) = p.typed()?;
            p.want(',')?;
            let (_, ix) = p.typed()?;
            match ix {
                Op::K(C::Int(k, _)) => I::Insert(ty, a, vt, v, vec![k as usize]),
                _ => return Err("insertelement".into()),
            }
        }
        "shufflevector" => {
            let (ty, a) = p.typed()?;
            p.want(',')?;
            let (_, b) = p.typed()?;
            p.want(',')?;
            let (mt, m) = p.typed()?;
            I::Opaque("shufflevector".into(), vec![(ty.clone(), a), (ty, b), (mt.clone(), m)], mt)
        }
        _ => return Err(format!("instruction {op}")),
    };
    blk.insts.push(Inst { dst, i });
    Ok(())
}
