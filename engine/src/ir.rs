//! Parser for the textual LLVM IR rustc emits. Functions and global initialisers are parsed lazily.
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void, Int(u32), F32, F64, Ptr, Label, Meta, Token,
    Arr(u64, Rc<Ty>), Vec(u64, Rc<Ty>), Struct(Rc<Vec<Ty>>, bool),
}

impl Ty {
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => { let s = ((*w as u64) + 7) / 8; align_up(s, self.align()) }
            Ty::F32 => 4, Ty::F64 => 8, Ty::Ptr => 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => n * t.bits() / 8,
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for t in f.iter() { if !packed { o = align_up(o, t.align()); } o += t.size(); }
                if *packed { o } else { align_up(o, self.align()) }
            }
            _ => 0,
        }
    }
    pub fn store_size(&self) -> u64 {
        match self { Ty::Int(w) => ((*w as u64) + 7) / 8, _ => self.size() }
    }
    pub fn bits(&self) -> u64 { match self { Ty::Int(w) => *w as u64, t => t.size() * 8 } }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match w { 0..=8 => 1, 9..=16 => 2, 17..=32 => 4, 33..=64 => 8, _ => 16 },
            Ty::F32 => 4, Ty::F64 | Ty::Ptr => 8,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.size().next_power_of_two(),
            Ty::Struct(f, packed) => if *packed { 1 } else { f.iter().map(|t| t.align()).max().unwrap_or(1) },
            _ => 1,
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (j, t) in f.iter().enumerate() {
                    if !packed { o = align_up(o, t.align()); }
                    if j == i { return o; }
                    o += t.size();
                }
                panic!("field index")
            }
            Ty::Arr(_, t) => t.size() * i as u64,
            Ty::Vec(_, t) => t.size() * i as u64,
            _ => panic!("field_off of {:?}", self),
        }
    }
    pub fn field(&self, i: usize) -> Ty {
        match self { Ty::Struct(f, _) => f[i].clone(), Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(), _ => panic!("field of {:?}", self) }
    }
}
pub fn align_up(x: u64, a: u64) -> u64 { (x + a - 1) / a * a }

#[derive(Clone, Debug)]
pub enum Opd {
    Reg(u32),
    Int(u64),
    Wide(u128, u32),
    F(u64),
    Glob(u64), // resolved address
    Agg(Rc<Vec<Opd>>),
    Zero(Ty),
    Undef(Ty),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bin { Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum FBin { Add, Sub, Mul, Div, Rem }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastOp { Trunc, ZExt, SExt, IntToPtr, PtrToInt, Bitcast, UiToFp, SiToFp, FpToUi, FpToSi, Other }

#[derive(Clone, Debug)]
pub enum I {
    Bin(Bin, u32, u32, Opd, Opd), // dst, width
    BinV(Bin, u32, Ty, Opd, Opd),
    FBin(FBin, u32, Opd, Opd),
    FNeg(u32, Opd),
    Icmp(Pred, u32, Ty, Opd, Opd),
    Fcmp(String, u32, Opd, Opd),
    Cast(CastOp, u32, Ty, Ty, Opd),
    Select(u32, Ty, Opd, Opd, Opd),
    Load(u32, Ty, Opd),
    Store(Ty, Opd, Opd),
    Gep(u32, Opd, u64, Vec<(Opd, u32, u64)>), // dst, base, const, (idx, width, scale)
    Alloca(u32, u64, u64, Opd),
    Call { dst: u32, ret: Ty, callee: Opd, name: Option<Rc<str>>, args: Vec<(Ty, Opd)>, noreturn: bool, normal: u32 },
    ExtractValue(u32, Opd, Vec<usize>),
    InsertValue(u32, Ty, Opd, Ty, Opd, Vec<usize>),
    ExtractElt(u32, Opd, Opd),
    InsertElt(u32, Ty, Opd, Opd, Opd),
    Freeze(u32, Opd),
    AtomicRmw(String, u32, Ty, Opd, Opd),
    CmpXchg(u32, Ty, Opd, Opd, Opd),
    Nop,
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(Opd, u32, u32, Vec<(u128, u32)>), // cond, width, default
    Ret(Option<(Ty, Opd)>),
    Unreachable,
    Unsupported(String),
}

pub struct Block {
    pub name: String,
    pub phis: Vec<(u32, Ty, Vec<(u32, Opd)>)>, // dst, (pred block, value)
    pub ins: Vec<I>,
}
pub struct Func {
    pub name: Rc<str>,
    pub params: Vec<(u32, Ty)>,
    pub ret: Ty,
    pub nregs: u32,
    pub blocks: Vec<Block>,
    pub ipdom: Vec<i32>,
    pub rty: Vec<Ty>, // type of each register (Void when it has none)
    pub dead: Vec<bool>, // can only end in panic/unreachable
    pub sort: bool,      // part of std's slice sorting
}

pub struct Global { pub name: String, pub addr: u64, pub ty: Ty, pub constant: bool, pub init: Option<String>, pub size: u64 }

pub struct Module {
    pub text: String,
    pub types: HashMap<String, String>,
    pub globals: Vec<Global>,
    pub gaddr: HashMap<String, u64>,
    pub faddr: HashMap<u64, Rc<str>>,
    pub fbody: HashMap<Rc<str>, (usize, usize)>, // byte range of definition
    pub noreturn: HashMap<Rc<str>, bool>,
    pub attr_noreturn: HashMap<String, bool>,
    pub funcs: std::cell::RefCell<HashMap<Rc<str>, Rc<Func>>>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Tok { Word(String), Loc(String), Glo(String), Num(String), Str(Vec<u8>), CStr(Vec<u8>), P(char), Meta(String), Attr(String), Label(String), Eof }

pub fn lex(s: &str) -> Vec<Tok> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = vec![];
    let idch = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    let readq = |i: &mut usize| -> Vec<u8> {
        // at opening quote
        let mut v = vec![];
        *i += 1;
        while b[*i] != b'"' {
            if b[*i] == b'\\' {
                if b[*i + 1] == b'\\' { v.push(b'\\'); *i += 2; }
                else { v.push(u8::from_str_radix(&s[*i + 1..*i + 3], 16).unwrap()); *i += 3; }
            } else { v.push(b[*i]); *i += 1; }
        }
        *i += 1;
        v
    };
    while i < b.len() {
        let c = b[i];
        if c.is_ascii_whitespace() { i += 1; continue; }
        if c == b';' { while i < b.len() && b[i] != b'\n' { i += 1; } continue; }
        if c == b'%' || c == b'@' {
            i += 1;
            let name = if b[i] == b'"' { String::from_utf8_lossy(&readq(&mut i)).into_owned() } else {
                let st = i;
                while i < b.len() && idch(b[i]) { i += 1; }
                s[st..i].to_string()
            };
            out.push(if c == b'%' { Tok::Loc(name) } else { Tok::Glo(name) });
            continue;
        }
        if c == b'!' {
            let st = i;
            i += 1;
            while i < b.len() && (idch(b[i]) || b[i] == b'\\') { i += 1; }
            out.push(Tok::Meta(s[st..i].to_string()));
            continue;
        }
        if c == b'#' {
            let st = i;
            i += 1;
            while i < b.len() && idch(b[i]) { i += 1; }
            out.push(Tok::Attr(s[st..i].to_string()));
            continue;
        }
        if c == b'"' {
            let v = readq(&mut i);
            if i < b.len() && b[i] == b':' { i += 1; out.push(Tok::Label(String::from_utf8_lossy(&v).into_owned())); } else { out.push(Tok::Str(v)); }
            continue;
        }
        if c == b'c' && i + 1 < b.len() && b[i + 1] == b'"' { i += 1; out.push(Tok::CStr(readq(&mut i))); continue; }
        if idch(c) || c == b'+' {
            let st = i;
            i += 1;
            while i < b.len() && (idch(b[i]) || (b[i] == b'+' && matches!(b[i - 1], b'e' | b'E') && b[st].is_ascii_digit() | (b[st] == b'-'))) { i += 1; }
            let w = &s[st..i];
            if i < b.len() && b[i] == b':' && (i + 1 >= b.len() || b[i + 1] == b'\n' || b[i + 1] == b' ' || b[i+1] == b'\r') {
                i += 1;
                out.push(Tok::Label(w.to_string()));
                continue;
            }
            let f = w.as_bytes()[0];
            if f.is_ascii_digit() || ((f == b'-' || f == b'+') && w.len() > 1) { out.push(Tok::Num(w.to_string())); } else { out.push(Tok::Word(w.to_string())); }
            continue;
        }
        out.push(Tok::P(c as char));
        i += 1;
    }
    out.push(Tok::Eof);
    out
}

pub struct P<'a> { m: &'a Module, t: Vec<Tok>, i: usize, slots: HashMap<String, u32>, n: u32, xty: HashMap<u32, Ty> }

impl Module {
    pub fn load(text: String) -> Module {
        let mut m = Module {
            text: String::new(), types: HashMap::new(), globals: vec![], gaddr: HashMap::new(), faddr: HashMap::new(),
            fbody: HashMap::new(), noreturn: HashMap::new(), attr_noreturn: HashMap::new(), funcs: Default::default(),
        };
        let mut pos = 0usize;
        let mut gl: Vec<(String, usize, usize)> = vec![];
        let mut fl: Vec<(Rc<str>, String)> = vec![];
        let bytes = text.as_bytes();
        let name_after = |line: &str, at: usize| -> String {
            let r = &line[at + 1..];
            if r.starts_with('"') { r[1..1 + r[1..].find('"').unwrap()].to_string() } else {
                let e = r.find(|c: char| !(c.is_ascii_alphanumeric() || c == '_' || c == '.' || c == '$' || c == '-')).unwrap_or(r.len());
                r[..e].to_string()
            }
        };
        while pos < bytes.len() {
            let eol = text[pos..].find('\n').map(|x| pos + x).unwrap_or(bytes.len());
            let line = &text[pos..eol];
            if line.starts_with("define ") || line.starts_with("declare ") {
                // name: first @ not in quotes
                let at = line.find('@').unwrap();
                let name: Rc<str> = name_after(line, at).into();
                // attribute groups at the end
                fl.push((name.clone(), line.to_string()));
                if line.starts_with("define ") {
                    let end = text[pos..].find("\n}\n").map(|x| pos + x + 2).unwrap_or(bytes.len());
                    m.fbody.insert(name, (pos, end));
                    pos = end + 1;
                    continue;
                }
            } else if line.starts_with('@') {
                let name = name_after(line, 0);
                gl.push((name, pos, eol));
            } else if line.starts_with('%') {
                let name = name_after(line, 0);
                let e = line.find(" = type ").unwrap();
                m.types.insert(name, line[e + 8..].to_string());
            } else if line.starts_with("attributes #") {
                let id = line[11..].split(' ').next().unwrap().to_string();
                let nr = line.split(|c: char| c == ' ' || c == '{' || c == '}').any(|w| w == "noreturn");
                m.attr_noreturn.insert(id, nr);
            }
            pos = eol + 1;
        }
        let mut fa = 0x10000u64;
        for (n, line) in &fl {
            m.gaddr.insert(n.to_string(), fa);
            m.faddr.insert(fa, n.clone());
            fa += 16;
            let nr = line.rsplit(')').next().unwrap().split_whitespace().any(|w| w == "noreturn" || (w.starts_with('#') && *m.attr_noreturn.get(w).unwrap_or(&false)));
            m.noreturn.insert(n.clone(), nr);
        }
        // globals: two passes, sizes first (types never depend on addresses)
        let mut ga = 0x1000_0000u64;
        m.text = text;
        let mut defs = vec![];
        for (n, s, e) in gl {
            let line = m.text[s..e].to_string();
            let toks = lex(&line);
            let mut p = P { m: &m, t: toks, i: 0, slots: HashMap::new(), n: 0, xty: HashMap::new() };
            p.i = 2; // @name =
            let mut constant = false;
            let mut external = false;
            loop {
                match p.peek().clone() {
                    Tok::Word(w) if w == "constant" => { constant = true; p.i += 1; break; }
                    Tok::Word(w) if w == "global" => { p.i += 1; break; }
                    Tok::Word(w) if w == "alias" => { external = true; break; }
                    Tok::Word(w) => { if w == "external" || w == "extern_weak" { external = true; } p.i += 1; }
                    Tok::Eof => { external = true; break; }
                    _ => { p.i += 1; }
                }
            }
            let mut ty = Ty::Int(8);
            if !external || p.i < p.t.len() - 1 { if let Tok::Word(w) = p.peek() { if w == "alias" { defs.push((n, Ty::Int(8), true, None)); continue; } } ty = p.ty(); }
            defs.push((n, ty, constant, if external { None } else { Some(line) }));
        }
        for (n, ty, constant, line) in defs {
            let size = ty.size();
            ga = align_up(ga, 64);
            m.gaddr.insert(n.clone(), ga);
            m.globals.push(Global { name: n, addr: ga, ty, constant, init: line, size });
            ga += size.max(1) + 64;
        }
        m
    }

    /// operand tree of a global's initialiser
    pub fn global_init(&self, g: &Global) -> Option<Opd> {
        let line = g.init.as_ref()?;
        let toks = lex(line);
        let mut p = P { m: self, t: toks, i: 2, slots: HashMap::new(), n: 0, xty: HashMap::new() };
        loop {
            match p.next() { Tok::Word(w) if w == "constant" || w == "global" => break, Tok::Eof => return None, _ => {} }
        }
        let ty = p.ty();
        Some(p.val(&ty))
    }

    pub fn func(&self, name: &str) -> Option<Rc<Func>> {
        if let Some(f) = self.funcs.borrow().get(name) { return Some(f.clone()); }
        let &(s, e) = self.fbody.get(name)?;
        let toks = lex(&self.text[s..e]);
        let mut p = P { m: self, t: toks, i: 0, slots: HashMap::new(), n: 0, xty: HashMap::new() };
        let f = Rc::new(p.func(name));
        self.funcs.borrow_mut().insert(f.name.clone(), f.clone());
        Some(f)
    }
}

const PATTR_ARG: &[&str] = &["align", "dereferenceable", "dereferenceable_or_null", "sret", "byval", "captures", "range", "nofpclass", "initializes", "elementtype", "memory", "preallocated", "inalloca", "alignstack", "allocsize", "vscale_range", "allockind", "dead_on_return", "byref"];

impl<'a> P<'a> {
    fn peek(&self) -> &Tok { &self.t[self.i] }
    fn next(&mut self) -> Tok { let t = self.t[self.i].clone(); if self.i < self.t.len() - 1 { self.i += 1; } t }
    fn isp(&self, c: char) -> bool { *self.peek() == Tok::P(c) }
    fn isw(&self, w: &str) -> bool { matches!(self.peek(), Tok::Word(x) if x == w) }
    fn eatp(&mut self, c: char) -> bool { if self.isp(c) { self.i += 1; true } else { false } }
    fn eatw(&mut self, w: &str) -> bool { if self.isw(w) { self.i += 1; true } else { false } }
    fn exp(&mut self, c: char) { if !self.eatp(c) { panic!("parse: expected {:?} got {:?} near {:?}", c, self.peek(), &self.t[self.i.saturating_sub(12)..(self.i + 4).min(self.t.len())]); } }
    fn num(&mut self) -> u64 { match self.next() { Tok::Num(n) => n.parse::<i128>().unwrap() as u64, t => panic!("num {:?}", t) } }

    fn slot(&mut self, n: &str) -> u32 {
        if let Some(&s) = self.slots.get(n) { return s; }
        let s = self.n;
        self.n += 1;
        self.slots.insert(n.to_string(), s);
        s
    }

    pub fn ty(&mut self) -> Ty {
        let t = match self.next() {
            Tok::Word(w) => match w.as_str() {
                "void" => Ty::Void, "double" => Ty::F64, "float" => Ty::F32, "half" | "fp128" | "x86_fp80" | "bfloat" => Ty::F32,
                "ptr" => { if self.eatw("addrspace") { self.exp('('); self.next(); self.exp(')'); } Ty::Ptr }
                "label" => Ty::Label, "metadata" => Ty::Meta, "token" => Ty::Token,
                w if w.starts_with('i') => Ty::Int(w[1..].parse().unwrap_or_else(|_| panic!("type {}", w))),
                w => panic!("type word {} near {:?}", w, &self.t[self.i.saturating_sub(8)..(self.i + 4).min(self.t.len())]),
            },
            Tok::Loc(n) => {
                let s = self.m.types.get(&n).unwrap_or_else(|| panic!("named type {}", n)).clone();
                let mut p = P { m: self.m, t: lex(&s), i: 0, slots: HashMap::new(), n: 0, xty: HashMap::new() };
                p.ty()
            }
            Tok::P('[') => { let n = self.num(); self.eatw("x"); let t = self.ty(); self.exp(']'); Ty::Arr(n, Rc::new(t)) }
            Tok::P('{') => {
                let mut v = vec![];
                while !self.eatp('}') { v.push(self.ty()); self.eatp(','); }
                Ty::Struct(Rc::new(v), false)
            }
            Tok::P('<') => {
                if self.eatp('{') {
                    let mut v = vec![];
                    while !self.eatp('}') { v.push(self.ty()); self.eatp(','); }
                    self.exp('>');
                    Ty::Struct(Rc::new(v), true)
                } else { let n = self.num(); self.eatw("x"); let t = self.ty(); self.exp('>'); Ty::Vec(n, Rc::new(t)) }
            }
            t => panic!("type tok {:?} near {:?}", t, &self.t[self.i.saturating_sub(10)..(self.i + 4).min(self.t.len())]),
        };
        // function type: ret (args)
        t
    }

    fn skip_parens(&mut self) {
        self.exp('(');
        let mut d = 1;
        while d > 0 { match self.next() { Tok::P('(') => d += 1, Tok::P(')') => d -= 1, Tok::Eof => panic!("paren"), _ => {} } }
    }
    fn skip_pattrs(&mut self) {
        loop {
            match self.peek().clone() {
                Tok::Word(w) if PATTR_ARG.contains(&w.as_str()) => {
                    self.i += 1;
                    if self.isp('(') { self.skip_parens(); } else if w == "align" { self.next(); }
                }
                Tok::Word(w) if ["noundef", "nonnull", "noalias", "nocapture", "readonly", "readnone", "writeonly", "zeroext", "signext", "returned", "nofree", "nest", "immarg", "inreg", "swiftself", "swifterror", "noext", "writable", "dead_on_unwind", "allocptr", "allocalign", "nounwind", "dead_on_return"].contains(&w.as_str()) => { self.i += 1; }
                Tok::Str(_) => { self.i += 1; if self.eatp('=') { self.next(); } }
                _ => break,
            }
        }
    }

    fn fnum(s: &str) -> u64 {
        if let Some(h) = s.strip_prefix("0x") { u64::from_str_radix(h, 16).unwrap() } else { s.parse::<f64>().unwrap().to_bits() }
    }

    pub fn val(&mut self, ty: &Ty) -> Opd {
        match self.next() {
            Tok::Loc(n) => Opd::Reg(self.slot(&n)),
            Tok::Glo(n) => Opd::Glob(*self.m.gaddr.get(&n).unwrap_or_else(|| panic!("global {}", n))),
            Tok::Num(n) => match ty {
                Ty::Int(w) if *w <= 64 => { let v: i128 = n.parse().unwrap(); Opd::Int((v as u64) & (if *w == 64 { u64::MAX } else { (1u64 << w) - 1 })) }
                Ty::Int(w) => { let v = if n.starts_with('-') { n.parse::<i128>().unwrap() as u128 } else { n.parse::<u128>().unwrap() }; Opd::Wide(v, *w) }
                Ty::F64 => Opd::F(Self::fnum(&n)),
                Ty::F32 => Opd::F(0),
                t => panic!("num for {:?}", t),
            },
            Tok::CStr(v) => Opd::Agg(Rc::new(v.into_iter().map(|b| Opd::Int(b as u64)).collect())),
            Tok::P('[') => { let v = self.list(']'); Opd::Agg(Rc::new(v)) }
            Tok::P('{') => { let v = self.list('}'); Opd::Agg(Rc::new(v)) }
            Tok::P('<') => {
                if self.eatp('{') { let v = self.list('}'); self.exp('>'); Opd::Agg(Rc::new(v)) }
                else { let v = self.list('>'); Opd::Agg(Rc::new(v)) }
            }
            Tok::Meta(_) => { if self.isp('{') || self.isp('(') { let mut d = 0; loop { match self.next() { Tok::P('{') | Tok::P('(') => d += 1, Tok::P('}') | Tok::P(')') => { d -= 1; if d == 0 { break; } } Tok::Eof => break, _ => {} } } } Opd::Int(0) }
            Tok::Word(w) => match w.as_str() {
                "true" => Opd::Int(1), "false" => Opd::Int(0), "null" => Opd::Int(0),
                "zeroinitializer" => Opd::Zero(ty.clone()),
                "undef" | "poison" => Opd::Undef(ty.clone()),
                "inttoptr" | "ptrtoint" | "bitcast" | "addrspacecast" | "trunc" | "ptrtoaddr" => {
                    self.exp('(');
                    let t = self.ty();
                    let v = self.val(&t);
                    self.eatw("to");
                    self.ty();
                    self.exp(')');
                    v
                }
                "getelementptr" => {
                    while let Tok::Word(x) = self.peek().clone() { if x == "inbounds" || x == "nuw" || x == "nusw" || x == "inrange" { self.i += 1; if x == "inrange" && self.isp('(') { self.skip_parens(); } } else { break; } }
                    self.exp('(');
                    let t = self.ty();
                    self.exp(',');
                    let (b, k, dynv) = self.gep_rest(&t);
                    self.exp(')');
                    assert!(dynv.is_empty());
                    match b { Opd::Glob(a) | Opd::Int(a) => Opd::Glob(a.wrapping_add(k)), b => panic!("const gep base {:?}", b) }
                }
                "sub" | "add" => {
                    while let Tok::Word(x) = self.peek().clone() { if x == "nuw" || x == "nsw" { self.i += 1; } else { break; } }
                    self.exp('(');
                    let t = self.ty();
                    let a = self.val(&t);
                    self.exp(',');
                    let t2 = self.ty();
                    let b = self.val(&t2);
                    self.exp(')');
                    let g = |o: &Opd| match o { Opd::Glob(a) | Opd::Int(a) => *a, o => panic!("const {:?}", o) };
                    Opd::Int(if w == "sub" { g(&a).wrapping_sub(g(&b)) } else { g(&a).wrapping_add(g(&b)) })
                }
                "dso_local_equivalent" | "no_cfi" => self.val(ty),
                "nan" | "inf" | "-inf" | "qnan" | "snan" => Opd::F(match w.as_str() { "inf" => f64::INFINITY, "-inf" => f64::NEG_INFINITY, _ => f64::NAN }.to_bits()),
                "splat" => { self.exp('('); let t = self.ty(); let v = self.val(&t); self.exp(')'); if let Ty::Vec(n, _) = ty { Opd::Agg(Rc::new(vec![v; *n as usize])) } else { panic!("splat") } }
                "asm" => { while !self.isp('(') { self.next(); } Opd::Undef(Ty::Ptr) }
                "f0x" => panic!("f0x"),
                w if w.starts_with("f0x") => Opd::F(u64::from_str_radix(&w[3..], 16).unwrap()),
                w => panic!("value word {} near {:?}", w, &self.t[self.i.saturating_sub(12)..(self.i + 6).min(self.t.len())]),
            },
            t => panic!("value {:?} near {:?}", t, &self.t[self.i.saturating_sub(12)..(self.i + 6).min(self.t.len())]),
        }
    }
    fn list(&mut self, end: char) -> Vec<Opd> {
        let mut v = vec![];
        while !self.eatp(end) { let t = self.ty(); self.skip_pattrs(); v.push(self.val(&t)); self.eatp(','); }
        v
    }
    fn tval(&mut self) -> (Ty, Opd) { let t = self.ty(); self.skip_pattrs(); let v = self.val(&t); (t, v) }

    // after "type ," : base and indices
    fn gep_rest(&mut self, t: &Ty) -> (Opd, u64, Vec<(Opd, u32, u64)>) {
        let (_, base) = self.tval();
        let mut k = 0u64;
        let mut dynv = vec![];
        let mut cur = t.clone();
        let mut first = true;
        while self.isp(',') {
            if let Tok::Meta(_) = self.t[self.i + 1] { break; }
            self.exp(',');
            let (it, iv) = self.tval();
            let w = match it { Ty::Int(w) => w, t => panic!("gep idx type {:?}", t) };
            let scale;
            if first { scale = cur.size(); first = false; }
            else {
                match (&cur, &iv) {
                    (Ty::Struct(..), Opd::Int(i)) => { k = k.wrapping_add(cur.field_off(*i as usize)); let c = cur.field(*i as usize); cur = c; continue; }
                    _ => { let c = cur.field(0); cur = c; scale = cur.size(); }
                }
            }
            match iv {
                Opd::Int(i) => { let s = if w < 64 { ((i << (64 - w)) as i64) >> (64 - w) } else { i as i64 }; k = k.wrapping_add((s as u64).wrapping_mul(scale)); }
                v => dynv.push((v, w, scale)),
            }
        }
        (base, k, dynv)
    }

    fn skip_to_eol(&mut self, next_start: &dyn Fn(&P) -> bool) { while !next_start(self) { self.i += 1; } }

    fn func(&mut self, name: &str) -> Func {
        // header
        assert!(self.eatw("define"));
        loop {
            // skip linkage etc until a type followed by @name
            if let Tok::Glo(_) = self.peek() { break; }
            match self.peek().clone() {
                Tok::Word(w) if ["void", "double", "float", "ptr"].contains(&w.as_str()) || (w.starts_with('i') && w[1..].parse::<u32>().is_ok()) => break,
                Tok::P('{') | Tok::P('[') | Tok::P('<') | Tok::Loc(_) => break,
                Tok::Word(w) if PATTR_ARG.contains(&w.as_str()) => { self.i += 1; if self.isp('(') { self.skip_parens(); } else if w == "align" { self.next(); } }
                _ => { self.i += 1; }
            }
        }
        let ret = self.ty();
        self.next();
        self.exp('(');
        let mut params = vec![];
        let mut anon = 0;
        while !self.eatp(')') {
            if self.isp('.') || self.isw("...") { self.next(); continue; }
            let t = self.ty();
            self.skip_pattrs();
            let n = if let Tok::Loc(n) = self.peek().clone() { self.i += 1; n } else { let n = anon.to_string(); n };
            anon += 1;
            let s = self.slot(&n);
            params.push((s, t));
            self.eatp(',');
        }
        while !self.isp('{') { if self.isw("personality") { self.i += 1; } self.i += 1; }
        self.exp('{');
        // label pre-scan
        let mut labels: HashMap<String, u32> = HashMap::new();
        let mut nl = 0;
        {
            let mut j = self.i;
            if !matches!(self.t[j], Tok::Label(_)) { labels.insert(format!("{}", params.len()), 0); nl = 1; }
            while j < self.t.len() { if let Tok::Label(l) = &self.t[j] { labels.insert(l.clone(), nl); nl += 1; } j += 1; }
        }
        let mut blocks: Vec<Block> = vec![];
        if !matches!(self.peek(), Tok::Label(_)) { blocks.push(Block { name: "entry".into(), phis: vec![], ins: vec![] }); }
        loop {
            match self.peek().clone() {
                Tok::P('}') => break,
                Tok::Eof => break,
                Tok::Label(l) => { self.i += 1; blocks.push(Block { name: l, phis: vec![], ins: vec![] }); continue; }
                _ => {}
            }
            let mut dst = u32::MAX;
            if let Tok::Loc(n) = self.peek().clone() {
                self.i += 1;
                self.exp('=');
                dst = self.slot(&n);
            }
            let op = match self.next() { Tok::Word(w) => w, t => panic!("opcode {:?} in {}", t, name) };
            if op == "phi" {
                self.fmf();
                let t = self.ty();
                let mut v = vec![];
                loop {
                    self.exp('[');
                    let x = self.val(&t);
                    self.exp(',');
                    let l = match self.next() { Tok::Loc(l) => labels[&l], t => panic!("phi label {:?}", t) };
                    self.exp(']');
                    v.push((l, x));
                    if self.isp(',') && self.t[self.i + 1] == Tok::P('[') { self.i += 1; } else { break; }
                }
                self.trail();
                blocks.last_mut().unwrap().phis.push((dst, t, v));
                continue;
            }
            let ins = self.instr(&op, dst, &labels);
            self.trail();
            blocks.last_mut().unwrap().ins.push(ins);
        }
        let nregs = self.n;
        let mut rty = vec![Ty::Void; nregs as usize];
        let mut put = |d: u32, t: Ty| if d != u32::MAX { rty[d as usize] = t };
        for (d, t) in &params { put(*d, t.clone()); }
        for b in &blocks {
            for (d, t, _) in &b.phis { put(*d, t.clone()); }
            for i in &b.ins {
                match i {
                    I::Bin(_, d, w, ..) => put(*d, Ty::Int(*w)),
                    I::BinV(_, d, t, ..) => put(*d, t.clone()),
                    I::FBin(_, d, ..) | I::FNeg(d, _) => put(*d, Ty::F64),
                    I::Icmp(_, d, t, ..) => put(*d, if let Ty::Vec(n, _) = t { Ty::Vec(*n, Rc::new(Ty::Int(1))) } else { Ty::Int(1) }),
                    I::Fcmp(_, d, ..) => put(*d, Ty::Int(1)),
                    I::Cast(_, d, _, t, _) => put(*d, t.clone()),
                    I::Select(d, t, ..) | I::Load(d, t, _) | I::InsertValue(d, t, ..) | I::InsertElt(d, t, ..) | I::AtomicRmw(_, d, t, ..) => put(*d, t.clone()),
                    I::Gep(d, ..) | I::Alloca(d, ..) => put(*d, Ty::Ptr),
                    I::Call { dst, ret, .. } => put(*dst, ret.clone()),
                    I::ExtractValue(d, ..) | I::ExtractElt(d, ..) | I::Freeze(d, _) => { if let Some(t) = self.xty.get(d) { put(*d, t.clone()); } }
                    I::CmpXchg(d, t, ..) => put(*d, Ty::Struct(Rc::new(vec![t.clone(), Ty::Int(1)]), false)),
                    _ => {}
                }
            }
        }
        let sort = name.contains("5slice4sort"); let mut f = Func { sort, name: name.into(), params, ret, nregs, blocks, ipdom: vec![], rty, dead: vec![] };
        analyse(&mut f);
        f
    }

    // trailing metadata attachments: , !x !y / , align n
    fn trail(&mut self) {
        loop {
            if self.isp(',') {
                match self.t[self.i + 1].clone() {
                    Tok::Meta(_) => { self.i += 2; if let Tok::Meta(_) = self.peek() { self.i += 1; } if self.isp('{') || self.isp('(') { let mut d = 0; loop { match self.next() { Tok::P('{') | Tok::P('(') => d += 1, Tok::P('}') | Tok::P(')') => { d -= 1; if d == 0 { break; } } Tok::Eof => break, _ => {} } } } }
                    Tok::Word(w) if w == "align" => { self.i += 3; }
                    _ => break,
                }
            } else { break; }
        }
    }
    fn fmf(&mut self) {
        while let Tok::Word(w) = self.peek() {
            if ["fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"].contains(&w.as_str()) { self.i += 1; } else { break; }
        }
    }

    fn instr(&mut self, op: &str, dst: u32, labels: &HashMap<String, u32>) -> I {
        let lab = |p: &mut P| -> u32 { match p.next() { Tok::Loc(l) => labels[&l], t => panic!("label {:?}", t) } };
        match op {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" => {
                while self.eatw("nuw") || self.eatw("nsw") || self.eatw("exact") || self.eatw("disjoint") {}
                let t = self.ty();
                let a = self.val(&t);
                self.exp(',');
                let b = self.val(&t);
                let o = match op { "add" => Bin::Add, "sub" => Bin::Sub, "mul" => Bin::Mul, "udiv" => Bin::UDiv, "sdiv" => Bin::SDiv, "urem" => Bin::URem, "srem" => Bin::SRem, "shl" => Bin::Shl, "lshr" => Bin::LShr, "ashr" => Bin::AShr, "and" => Bin::And, "or" => Bin::Or, _ => Bin::Xor };
                match t { Ty::Int(w) => I::Bin(o, dst, w, a, b), t => I::BinV(o, dst, t, a, b) }
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                self.fmf();
                let t = self.ty();
                let a = self.val(&t);
                self.exp(',');
                let b = self.val(&t);
                if t != Ty::F64 { return I::Unsupported(format!("{} {:?}", op, t)); }
                I::FBin(match op { "fadd" => FBin::Add, "fsub" => FBin::Sub, "fmul" => FBin::Mul, "fdiv" => FBin::Div, _ => FBin::Rem }, dst, a, b)
            }
            "fneg" => { self.fmf(); let t = self.ty(); let a = self.val(&t); if t != Ty::F64 { return I::Unsupported("fneg".into()); } I::FNeg(dst, a) }
            "icmp" => {
                self.eatw("samesign");
                let p = match self.next() { Tok::Word(w) => w, t => panic!("{:?}", t) };
                let t = self.ty();
                let a = self.val(&t);
                self.exp(',');
                let b = self.val(&t);
                let p = match p.as_str() { "eq" => Pred::Eq, "ne" => Pred::Ne, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "ult" => Pred::Ult, "ule" => Pred::Ule, "sgt" => Pred::Sgt, "sge" => Pred::Sge, "slt" => Pred::Slt, _ => Pred::Sle };
                I::Icmp(p, dst, t, a, b)
            }
            "fcmp" => {
                self.fmf();
                let p = match self.next() { Tok::Word(w) => w, t => panic!("{:?}", t) };
                let t = self.ty();
                let a = self.val(&t);
                self.exp(',');
                let b = self.val(&t);
                if t != Ty::F64 { return I::Unsupported("fcmp".into()); }
                I::Fcmp(p, dst, a, b)
            }
            "trunc" | "zext" | "sext" | "inttoptr" | "ptrtoint" | "bitcast" | "uitofp" | "sitofp" | "fptoui" | "fptosi" | "fpext" | "fptrunc" | "addrspacecast" | "ptrtoaddr" => {
                while self.eatw("nuw") || self.eatw("nsw") || self.eatw("nneg") {}
                self.fmf();
                let t = self.ty();
                let a = self.val(&t);
                assert!(self.eatw("to"));
                let t2 = self.ty();
                let o = match op { "trunc" => CastOp::Trunc, "zext" => CastOp::ZExt, "sext" => CastOp::SExt, "inttoptr" => CastOp::IntToPtr, "ptrtoint" | "ptrtoaddr" => CastOp::PtrToInt, "bitcast" => CastOp::Bitcast, "uitofp" => CastOp::UiToFp, "sitofp" => CastOp::SiToFp, "fptoui" => CastOp::FpToUi, "fptosi" => CastOp::FpToSi, _ => CastOp::Other };
                I::Cast(o, dst, t, t2, a)
            }
            "select" => {
                self.fmf();
                let (_, c) = self.tval();
                self.exp(',');
                let (t, a) = self.tval();
                self.exp(',');
                let (_, b) = self.tval();
                I::Select(dst, t, c, a, b)
            }
            "load" => {
                self.eatw("atomic"); self.eatw("volatile");
                let t = self.ty();
                self.exp(',');
                let (_, p) = self.tval();
                self.ordering();
                I::Load(dst, t, p)
            }
            "store" => {
                self.eatw("atomic"); self.eatw("volatile");
                let (t, v) = self.tval();
                self.exp(',');
                let (_, p) = self.tval();
                self.ordering();
                I::Store(t, v, p)
            }
            "getelementptr" => {
                while self.eatw("inbounds") || self.eatw("nuw") || self.eatw("nusw") {}
                let t = self.ty();
                self.exp(',');
                let (b, k, d) = self.gep_rest(&t);
                I::Gep(dst, b, k, d)
            }
            "alloca" => {
                self.eatw("inalloca");
                let t = self.ty();
                let mut n = Opd::Int(1);
                let mut al = t.align();
                loop {
                    if !self.isp(',') { break; }
                    if let Tok::Meta(_) = self.t[self.i + 1] { break; }
                    self.exp(',');
                    if self.eatw("align") { al = self.num(); } else { let (_, v) = self.tval(); n = v; }
                }
                I::Alloca(dst, t.size(), al, n)
            }
            "tail" | "musttail" | "notail" => { self.next(); self.call(dst, labels, false) }
            "call" => self.call(dst, labels, false),
            "invoke" => self.call(dst, labels, true),
            "extractvalue" => {
                let (at, a) = self.tval();
                let mut ix = vec![];
                while self.isp(',') && matches!(self.t[self.i + 1], Tok::Num(_)) { self.i += 1; ix.push(self.num() as usize); }
                let mut et = at;
                for &i in &ix { et = match et { Ty::Struct(f, _) => f[i].clone(), Ty::Arr(_, t) => (*t).clone(), t => t }; }
                self.xty.insert(dst, et);
                I::ExtractValue(dst, a, ix)
            }
            "insertvalue" => {
                let (t, a) = self.tval();
                self.exp(',');
                let (t2, b) = self.tval();
                let mut ix = vec![];
                while self.isp(',') && matches!(self.t[self.i + 1], Tok::Num(_)) { self.i += 1; ix.push(self.num() as usize); }
                I::InsertValue(dst, t, a, t2, b, ix)
            }
            "extractelement" => { let (at, a) = self.tval(); if let Ty::Vec(_, t) = &at { self.xty.insert(dst, (**t).clone()); } self.exp(','); let (_, b) = self.tval(); I::ExtractElt(dst, a, b) }
            "insertelement" => { let (t, a) = self.tval(); self.exp(','); let (_, b) = self.tval(); self.exp(','); let (_, c) = self.tval(); I::InsertElt(dst, t, a, b, c) }
            "shufflevector" => { self.tval(); self.exp(','); self.tval(); self.exp(','); self.tval(); I::Unsupported("shufflevector".into()) }
            "freeze" => { let (t, a) = self.tval(); self.xty.insert(dst, t); I::Freeze(dst, a) }
            "fence" => { while let Tok::Word(_) = self.peek() { if self.is_ordering() { self.i += 1; } else { break; } } I::Nop }
            "atomicrmw" => {
                self.eatw("volatile");
                let o = match self.next() { Tok::Word(w) => w, t => panic!("{:?}", t) };
                let (_, p) = self.tval();
                self.exp(',');
                let (t, v) = self.tval();
                self.ordering();
                I::AtomicRmw(o, dst, t, p, v)
            }
            "cmpxchg" => {
                self.eatw("weak"); self.eatw("volatile");
                let (_, p) = self.tval();
                self.exp(',');
                let (t, a) = self.tval();
                self.exp(',');
                let (_, b) = self.tval();
                self.ordering();
                self.ordering();
                I::CmpXchg(dst, t, p, a, b)
            }
            "br" => {
                if self.eatw("label") { let l = lab(self); return I::Br(l); }
                let (_, c) = self.tval();
                self.exp(',');
                self.eatw("label");
                let a = lab(self);
                self.exp(',');
                self.eatw("label");
                let b = lab(self);
                I::CondBr(c, a, b)
            }
            "switch" => {
                let (t, c) = self.tval();
                let w = match t { Ty::Int(w) => w, _ => panic!("switch type") };
                self.exp(',');
                self.eatw("label");
                let d = lab(self);
                self.exp('[');
                let mut v = vec![];
                while !self.eatp(']') {
                    let (_, k) = self.tval();
                    self.exp(',');
                    self.eatw("label");
                    let l = lab(self);
                    v.push((match k { Opd::Int(k) => k as u128, Opd::Wide(k, _) => k, k => panic!("{:?}", k) }, l));
                }
                I::Switch(c, w, d, v)
            }
            "ret" => {
                if self.eatw("void") { return I::Ret(None); }
                let (t, v) = self.tval();
                I::Ret(Some((t, v)))
            }
            "unreachable" => I::Unreachable,
            "resume" => { self.tval(); I::Unsupported("resume".into()) }
            "landingpad" => {
                self.ty();
                loop { if self.eatw("cleanup") { continue; } if self.eatw("catch") || self.eatw("filter") { self.tval(); continue; } break; }
                I::Unsupported("landingpad".into())
            }
            "va_arg" => { self.tval(); self.exp(','); self.ty(); I::Unsupported("va_arg".into()) }
            o => panic!("opcode {} near {:?}", o, &self.t[self.i.saturating_sub(8)..(self.i + 8).min(self.t.len())]),
        }
    }
    fn is_ordering(&self) -> bool { matches!(self.peek(), Tok::Word(w) if ["monotonic", "acquire", "release", "acq_rel", "seq_cst", "unordered", "syncscope"].contains(&w.as_str())) }
    fn ordering(&mut self) {
        if self.isw("syncscope") { self.i += 1; self.skip_parens(); }
        if self.is_ordering() { self.i += 1; }
    }

    fn call(&mut self, dst: u32, labels: &HashMap<String, u32>, invoke: bool) -> I {
        self.fmf();
        // calling convention & ret attrs
        loop {
            if self.eatw("fastcc") || self.eatw("coldcc") || self.eatw("ccc") || self.eatw("tailcc") || self.eatw("preserve_mostcc") { continue; }
            let j = self.i;
            self.skip_pattrs();
            if self.i == j { break; }
        }
        let ret = self.ty();
        if self.isp('(') { self.skip_parens(); } // explicit function type
        let callee = self.next();
        let (cop, name): (Opd, Option<Rc<str>>) = match callee {
            Tok::Glo(n) => (Opd::Glob(*self.m.gaddr.get(&n).unwrap_or(&0)), Some(n.as_str().into())),
            Tok::Loc(n) => (Opd::Reg(self.slot(&n)), None),
            Tok::Word(w) if w == "asm" => { while !self.isp('(') { self.next(); } (Opd::Int(0), Some("asm".into())) }
            t => panic!("callee {:?}", t),
        };
        self.exp('(');
        let mut args = vec![];
        while !self.eatp(')') {
            let t = self.ty();
            self.skip_pattrs();
            if t == Ty::Meta {
                // metadata operand: skip to , or )
                let mut d = 0;
                loop {
                    match self.peek() { Tok::P('(') | Tok::P('{') => d += 1, Tok::P(')') | Tok::P('}') if d > 0 => d -= 1, Tok::P(')') => break, Tok::P(',') if d == 0 => break, _ => {} }
                    self.i += 1;
                }
                args.push((t, Opd::Int(0)));
            } else { let v = self.val(&t); args.push((t, v)); }
            self.eatp(',');
        }
        let mut noreturn = name.as_ref().map_or(false, |n| *self.m.noreturn.get(n).unwrap_or(&false));
        loop {
            match self.peek().clone() {
                Tok::Attr(a) => { if *self.m.attr_noreturn.get(&a).unwrap_or(&false) { noreturn = true; } self.i += 1; }
                Tok::Word(w) if w == "noreturn" => { noreturn = true; self.i += 1; }
                Tok::Word(w) if w == "nounwind" || w == "readonly" || w == "cold" => { self.i += 1; }
                Tok::Word(w) if w == "memory" => { self.i += 1; self.skip_parens(); }
                Tok::P('[') if !invoke || !self.isw("to") => {
                    // operand bundle
                    if let Tok::P('[') = self.peek() { let mut d = 0; loop { match self.next() { Tok::P('[') => d += 1, Tok::P(']') => { d -= 1; if d == 0 { break; } } Tok::Eof => break, _ => {} } } }
                }
                _ => break,
            }
        }
        let mut normal = u32::MAX;
        if invoke {
            assert!(self.eatw("to"), "invoke to: {:?}", self.peek());
            self.eatw("label");
            normal = match self.next() { Tok::Loc(l) => labels[&l], t => panic!("{:?}", t) };
            assert!(self.eatw("unwind"));
            self.eatw("label");
            self.next();
        }
        I::Call { dst, ret, callee: cop, name, args, noreturn, normal }
    }
}

pub fn succs(b: &Block) -> Vec<u32> {
    match b.ins.last() {
        Some(I::Br(l)) => vec![*l],
        Some(I::CondBr(_, a, c)) => vec![*a, *c],
        Some(I::Switch(_, _, d, v)) => { let mut r = vec![*d]; r.extend(v.iter().map(|x| x.1)); r.sort(); r.dedup(); r }
        Some(I::Call { normal, .. }) if *normal != u32::MAX => vec![*normal],
        _ => vec![],
    }
}

fn analyse(f: &mut Func) {
    let n = f.blocks.len();
    let su: Vec<Vec<u32>> = f.blocks.iter().map(succs).collect();
    // blocks that can reach a return
    let mut live = vec![false; n];
    for (i, b) in f.blocks.iter().enumerate() { if let Some(I::Ret(_)) = b.ins.last() { live[i] = !b.ins.iter().any(|x| matches!(x, I::Call { noreturn: true, .. })); } }
    loop {
        let mut ch = false;
        for i in 0..n {
            if !live[i] && su[i].iter().any(|&s| live[s as usize]) && !f.blocks[i].ins.iter().any(|x| matches!(x, I::Call { noreturn: true, .. })) { live[i] = true; ch = true; }
        }
        if !ch { break; }
    }
    f.dead = live.iter().map(|x| !x).collect();
    // post-dominators over live blocks (small functions; bitset iteration)
    let words = (n + 63) / 64;
    let full = vec![u64::MAX; words];
    let mut pd: Vec<Vec<u64>> = vec![full.clone(); n];
    for i in 0..n { if live[i] && su[i].iter().all(|&s| !live[s as usize]) { let mut v = vec![0; words]; v[i / 64] |= 1 << (i % 64); pd[i] = v; } }
    loop {
        let mut ch = false;
        for i in (0..n).rev() {
            if !live[i] { continue; }
            let ls: Vec<u32> = su[i].iter().cloned().filter(|&s| live[s as usize]).collect();
            if ls.is_empty() { continue; }
            let mut v = full.clone();
            for s in ls { for w in 0..words { v[w] &= pd[s as usize][w]; } }
            v[i / 64] |= 1 << (i % 64);
            if v != pd[i] { pd[i] = v; ch = true; }
        }
        if !ch { break; }
    }
    f.ipdom = vec![-1; n];
    let cnts: Vec<u32> = (0..n).map(|j| pd[j].iter().map(|x| x.count_ones()).sum::<u32>()).collect();
    let cnt = |j: usize| cnts[j];
    for i in 0..n {
        if !live[i] { continue; }
        // immediate: the strict post-dominator with the largest own set
        let mut best = -1i32;
        let mut bc = 0;
        for j in 0..n {
            if j != i && live[j] && pd[i][j / 64] >> (j % 64) & 1 == 1 && pd[i] != full {
                let c = cnt(j);
                if best < 0 || c > bc { best = j as i32; bc = c; }
            }
        }
        f.ipdom[i] = best;
    }
}
