//! Parser for the textual LLVM IR that rustc emits (function bodies are parsed
//! lazily, on first call).
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u16),
    Ptr,
    F(u16),
    Arr(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Vec(u64, Rc<Ty>),
    Other,
}
impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => { let b = ((*w as u64) + 7) / 8; b.next_power_of_two().min(16).max(1) }
            Ty::Ptr => 8,
            Ty::F(w) => (*w as u64) / 8,
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(f, packed) => if *packed { 1 } else { f.iter().map(|t| t.align()).max().unwrap_or(1) },
            Ty::Vec(..) => self.size().next_power_of_two(),
            _ => 1,
        }
    }
    /// Allocation size in bytes.
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => { let b = ((*w as u64) + 7) / 8; let a = self.align(); (b + a - 1) / a * a }
            Ty::Ptr => 8,
            Ty::F(w) => (*w as u64) / 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(..) => {
                let (offs, end) = self.layout();
                let _ = offs;
                end
            }
            Ty::Vec(n, t) => { if let Ty::Int(1) = **t { (n + 7) / 8 } else { n * t.size() } }
            _ => 0,
        }
    }
    pub fn layout(&self) -> (Vec<u64>, u64) {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0u64;
                let mut v = vec![];
                for t in f.iter() {
                    if !packed { let a = t.align(); o = (o + a - 1) / a * a; }
                    v.push(o);
                    o += t.size();
                }
                if !packed { let a = self.align(); o = (o + a - 1) / a * a; }
                (v, o)
            }
            _ => (vec![], self.size()),
        }
    }
    pub fn width(&self) -> u16 {
        match self { Ty::Int(w) => *w, Ty::Ptr => 64, Ty::F(w) => *w, _ => 0 }
    }
    pub fn elem(&self, i: u64) -> (Ty, u64) {
        match self {
            Ty::Arr(_, t) => ((**t).clone(), i * t.size()),
            Ty::Vec(_, t) => ((**t).clone(), i * t.size()),
            Ty::Struct(f, _) => (f[i as usize].clone(), self.layout().0[i as usize]),
            _ => panic!("elem of {:?}", self),
        }
    }
}

#[derive(Clone, Debug)]
pub enum C {
    Int(u128),
    Undef,
    Zero,
    Glob(u32),
    GlobOff(u32, i64),
    Agg(Vec<(Ty, C)>),
    Bytes(Vec<u8>),
    /// Anything this parser does not model; using it is an error.
    Bad(String),
}
#[derive(Clone, Debug)]
pub enum Opnd {
    Reg(u32),
    Const(Rc<C>),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bin { Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor, FAdd, FSub, FMul, FDiv, FRem }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast { Trunc, ZExt, SExt, PtrToInt, IntToPtr, BitCast, U2F, S2F, F2U, F2S, FExt, FTrunc }

#[derive(Clone, Debug)]
pub enum Callee { Direct(u32), Indirect(Opnd), Asm }

#[derive(Clone, Debug)]
pub enum K {
    Bin(Bin, Ty, Opnd, Opnd),
    Icmp(Pred, Ty, Opnd, Opnd),
    Fcmp(String, Ty, Opnd, Opnd),
    FNeg(Ty, Opnd),
    Cast(Cast, Ty, Ty, Opnd),
    Load(Ty, Opnd),
    Store(Ty, Opnd, Opnd),
    Gep(Opnd, i64, Vec<(Opnd, u64, u16)>),
    Select(Ty, Opnd, Opnd, Opnd),
    Alloca(Ty, Opnd),
    Call(Ty, Callee, Vec<(Ty, Opnd)>, Option<u32>),
    ExtractValue(Opnd, Ty, Vec<u32>),
    InsertValue(Opnd, Ty, Opnd, Vec<u32>),
    Freeze(Ty, Opnd),
    Br(u32),
    CondBr(Opnd, u32, u32),
    Switch(Ty, Opnd, u32, Vec<(u128, u32)>),
    Ret(Ty, Opnd),
    RetVoid,
    Unreachable,
    AtomicRmw(String, Ty, Opnd, Opnd),
    CmpXchg(Ty, Opnd, Opnd, Opnd),
    Nop,
    Unsupported(String),
}
#[derive(Clone, Debug)]
pub struct Inst { pub dst: Option<u32>, pub k: K, pub dbg: u32 }

#[derive(Debug)]
pub struct Block { pub phis: Vec<(u32, Ty, HashMap<u32, Opnd>)>, pub insts: Vec<Inst> }

pub struct Func {
    pub id: u32,
    pub name: String,
    pub nregs: usize,
    pub params: Vec<(u32, Ty)>,
    pub ret: Ty,
    pub blocks: Vec<Block>,
    pub ipdom: Vec<u32>, // u32::MAX: function exit ; u32::MAX-1: none
    pub live_in: Vec<Vec<u64>>,
    pub reg_ty: Vec<Ty>,
    pub rpo: Vec<u32>,           // position in a topological order that keeps loops together
    pub loop_of: Vec<u32>,       // innermost loop of a block (NONE: no loop)
    pub loops: Vec<(u32, u32)>,  // (header, parent loop)
    pub joins: Vec<bool>,        // more than one predecessor
}

pub struct GlobalDef { pub name: String, pub line: Option<usize>, pub kind: GK, pub ty: Option<Ty>, pub init: Option<Rc<C>> , pub align: u64}
#[derive(PartialEq, Debug, Clone, Copy)]
pub enum GK { Func, Decl, Var, ExtVar }

pub struct Module {
    pub text: String,
    pub lines: Vec<(u32, u32)>,
    pub globals: Vec<GlobalDef>,
    pub by_name: HashMap<String, u32>,
    pub types: HashMap<String, Ty>,
    pub meta: HashMap<u32, usize>,
    pub funcs: HashMap<u32, Rc<Func>>,
}

struct Lx<'a> { s: &'a [u8], i: usize, m: &'a Module, locals: Option<&'a mut Locals> }
struct Locals { map: HashMap<String, u32>, blocks: HashMap<String, u32>, nregs: u32 }
impl Locals {
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(r) = self.map.get(n) { return *r; }
        let r = self.nregs;
        self.nregs += 1;
        self.map.insert(n.to_string(), r);
        r
    }
    fn block(&mut self, n: &str) -> u32 {
        let l = self.blocks.len() as u32;
        *self.blocks.entry(n.to_string()).or_insert(l)
    }
}

type R<X> = Result<X, String>;
fn idch(c: u8) -> bool { c.is_ascii_alphanumeric() || matches!(c, b'_' | b'.' | b'$' | b'-') }

impl<'a> Lx<'a> {
    fn ws(&mut self) { while self.i < self.s.len() && (self.s[self.i] as char).is_ascii_whitespace() { self.i += 1; } }
    fn peek(&mut self) -> u8 { self.ws(); *self.s.get(self.i).unwrap_or(&0) }
    fn eatc(&mut self, c: u8) -> bool { if self.peek() == c { self.i += 1; true } else { false } }
    fn expect(&mut self, c: u8) -> R<()> { if self.eatc(c) { Ok(()) } else { Err(format!("expected '{}' at: {}", c as char, self.rest())) } }
    fn rest(&self) -> String { let e = (self.i + 80).min(self.s.len()); String::from_utf8_lossy(&self.s[self.i.min(e)..e]).into() }
    fn peek_word(&mut self) -> &'a str {
        self.ws();
        let mut j = self.i;
        while j < self.s.len() && (self.s[j].is_ascii_alphanumeric() || matches!(self.s[j], b'_' | b'.')) { j += 1; }
        std::str::from_utf8(&self.s[self.i..j]).unwrap_or("")
    }
    fn eat_word(&mut self, w: &str) -> bool { if self.peek_word() == w { self.i += w.len(); true } else { false } }
    fn word(&mut self) -> &'a str { let w = self.peek_word(); self.i += w.len(); w }
    fn name(&mut self) -> R<String> {
        // after the sigil
        if self.s.get(self.i) == Some(&b'"') {
            self.i += 1;
            let st = self.i;
            while self.i < self.s.len() && self.s[self.i] != b'"' { self.i += 1; }
            let r = String::from_utf8_lossy(&self.s[st..self.i]).to_string();
            self.i += 1;
            return Ok(r);
        }
        let st = self.i;
        while self.i < self.s.len() && idch(self.s[self.i]) { self.i += 1; }
        if st == self.i { return Err(format!("name at {}", self.rest())); }
        Ok(String::from_utf8_lossy(&self.s[st..self.i]).to_string())
    }
    fn skip_balanced(&mut self) {
        // at '('
        let mut d = 0;
        while self.i < self.s.len() {
            match self.s[self.i] { b'(' => d += 1, b')' => { d -= 1; if d == 0 { self.i += 1; return; } } b'"' => { self.i += 1; while self.i < self.s.len() && self.s[self.i] != b'"' { self.i += 1; } } _ => {} }
            self.i += 1;
        }
    }
    fn num(&mut self) -> R<u64> {
        let w = self.word();
        w.parse().map_err(|_| format!("number: {w} {}", self.rest()))
    }
    fn ty(&mut self) -> R<Ty> {
        let c = self.peek();
        let mut t = match c {
            b'[' => { self.i += 1; let n = self.num()?; if !self.eat_word("x") { return Err("x".into()); } let t = self.ty()?; self.expect(b']')?; Ty::Arr(n, Rc::new(t)) }
            b'{' => { self.i += 1; let f = self.ty_list(b'}')?; Ty::Struct(Rc::new(f), false) }
            b'<' => {
                self.i += 1;
                if self.peek() == b'{' { self.i += 1; let f = self.ty_list(b'}')?; self.expect(b'>')?; Ty::Struct(Rc::new(f), true) }
                else { let n = self.num()?; if !self.eat_word("x") { return Err("x".into()); } let t = self.ty()?; self.expect(b'>')?; Ty::Vec(n, Rc::new(t)) }
            }
            b'%' => { self.i += 1; let n = self.name()?; self.m.types.get(&n).cloned().ok_or(format!("type %{n}"))? }
            _ => {
                let w = self.word();
                match w {
                    "void" => Ty::Void,
                    "ptr" => { if self.peek_word() == "addrspace" { self.word(); self.ws(); self.skip_balanced(); } Ty::Ptr }
                    "double" => Ty::F(64),
                    "float" => Ty::F(32),
                    "half" => Ty::F(16),
                    "fp128" => Ty::F(128),
                    "label" | "metadata" | "token" | "opaque" => Ty::Other,
                    _ => {
                        if let Some(n) = w.strip_prefix('i') { if let Ok(n) = n.parse::<u16>() { return Ok(Ty::Int(n)); } }
                        return Err(format!("type '{w}' {}", self.rest()));
                    }
                }
            }
        };
        // function type: ret (args)
        if self.peek() == b'(' && !matches!(t, Ty::Other) {
            // only in call instructions with explicit function types
            let save = self.i;
            self.skip_balanced();
            let p = self.peek();
            if p == b'@' || p == b'%' { } else { self.i = save; }
        }
        if let Ty::Void = t { t = Ty::Void; }
        Ok(t)
    }
    fn ty_list(&mut self, end: u8) -> R<Vec<Ty>> {
        let mut v = vec![];
        if self.eatc(end) { return Ok(v); }
        loop { v.push(self.ty()?); if self.eatc(b',') { continue; } self.expect(end)?; return Ok(v); }
    }
    fn skip_attrs(&mut self) {
        loop {
            self.ws();
            if self.i < self.s.len() && self.s[self.i] == b'"' {
                // string attribute
                self.i += 1;
                while self.i < self.s.len() && self.s[self.i] != b'"' { self.i += 1; }
                self.i += 1;
                if self.eatc(b'=') { self.ws(); self.i += 1; while self.i < self.s.len() && self.s[self.i] != b'"' { self.i += 1; } self.i += 1; }
                continue;
            }
            if self.i < self.s.len() && self.s[self.i] == b'#' { self.i += 1; self.word(); continue; }
            let w = self.peek_word();
            match w {
                "" => return,
                "align" => { self.word(); if self.peek() == b'(' { self.skip_balanced(); } else { let p = self.peek_word(); if p.parse::<u64>().is_ok() { self.word(); } } }
                "noundef" | "nonnull" | "noalias" | "nocapture" | "readonly" | "readnone" | "writeonly" | "nofree" | "signext" | "zeroext" | "inreg"
                | "returned" | "swiftself" | "writable" | "dead_on_unwind" | "dead_on_return" | "immarg" | "nest" | "noext" | "unnamed_addr" | "local_unnamed_addr" | "noreturn" | "nounwind"
                | "fastcc" | "ccc" | "coldcc" | "tailcc" | "dso_local" | "internal" | "private" | "hidden" | "protected" | "external" | "weak" | "linkonce_odr" | "weak_odr" | "linkonce" | "available_externally"
                | "cold" | "mustprogress" | "willreturn" | "nosync" | "norecurse" | "nobuiltin" | "minsize" | "optsize" | "preserve_mostcc" | "preserve_allcc" => { self.word(); }
                "dereferenceable" | "dereferenceable_or_null" | "range" | "captures" | "sret" | "byval" | "initializes" | "elementtype" | "memory" | "nofpclass" | "allocsize" | "allockind" | "addrspace" | "inalloca" | "byref" | "alignstack" | "uwtable" | "preallocated" => {
                    self.word(); self.ws(); if self.peek() == b'(' { self.skip_balanced(); }
                }
                _ => return,
            }
        }
    }
    fn is_ty_start(&mut self) -> bool {
        let c = self.peek();
        if matches!(c, b'[' | b'{' | b'<' | b'%') { return true; }
        let w = self.peek_word();
        matches!(w, "ptr" | "double" | "float" | "void" | "half" | "fp128" | "metadata" | "label" | "token") || (w.len() > 1 && w.starts_with('i') && w[1..].bytes().all(|b| b.is_ascii_digit()))
    }
    fn glob(&mut self) -> R<u32> {
        let n = self.name()?;
        self.m.by_name.get(&n).copied().ok_or(format!("global @{n}"))
    }
    /// Constant or operand of type `t`.
    fn opnd(&mut self, t: &Ty) -> R<Opnd> {
        if self.peek() == b'%' {
            self.i += 1;
            let n = self.name()?;
            let r = self.locals.as_mut().ok_or("local outside function")?.reg(&n);
            return Ok(Opnd::Reg(r));
        }
        Ok(Opnd::Const(Rc::new(self.cnst(t)?)))
    }
    fn cnst(&mut self, t: &Ty) -> R<C> {
        let c = self.peek();
        match c {
            b'@' => { self.i += 1; let g = self.glob()?; return Ok(C::Glob(g)); }
            b'[' | b'{' | b'<' => {
                let (open2, close) = match c { b'[' => (false, b']'), b'{' => (false, b'}'), _ => (true, b'>') };
                self.i += 1;
                let mut close = close;
                let mut packed = false;
                if open2 && self.peek() == b'{' { self.i += 1; packed = true; close = b'}'; }
                let mut v = vec![];
                if !self.eatc(close) {
                    loop {
                        let et = self.ty()?;
                        self.skip_attrs();
                        let ec = self.cnst(&et)?;
                        v.push((et, ec));
                        if self.eatc(b',') { continue; }
                        self.expect(close)?;
                        break;
                    }
                }
                if packed { self.expect(b'>')?; }
                return Ok(C::Agg(v));
            }
            b'-' => {
                let st = self.i;
                self.i += 1;
                while self.i < self.s.len() && (self.s[self.i].is_ascii_alphanumeric() || matches!(self.s[self.i], b'.' | b'+' | b'-')) { self.i += 1; }
                return num_const(std::str::from_utf8(&self.s[st..self.i]).unwrap(), t);
            }
            b'+' => { self.i += 1; let w = self.word(); return num_const(w, t); }
            _ => {}
        }
        if c.is_ascii_digit() {
            let st = self.i;
            while self.i < self.s.len() && (self.s[self.i].is_ascii_alphanumeric() || matches!(self.s[self.i], b'.') || (matches!(self.s[self.i], b'+' | b'-') && matches!(self.s[self.i - 1], b'e' | b'E'))) { self.i += 1; }
            return num_const(std::str::from_utf8(&self.s[st..self.i]).unwrap(), t);
        }
        let w = self.word();
        Ok(match w {
            "true" => C::Int(1),
            "false" => C::Int(0),
            "null" | "none" => C::Int(0),
            "undef" | "poison" => C::Undef,
            "zeroinitializer" => C::Zero,
            "c" => {
                // string
                self.expect(b'"')?;
                let mut v = vec![];
                while self.s[self.i] != b'"' {
                    if self.s[self.i] == b'\\' {
                        if self.s[self.i + 1] == b'\\' { v.push(b'\\'); self.i += 2; continue; }
                        let h = std::str::from_utf8(&self.s[self.i + 1..self.i + 3]).unwrap();
                        v.push(u8::from_str_radix(h, 16).map_err(|e| e.to_string())?);
                        self.i += 3;
                    } else { v.push(self.s[self.i]); self.i += 1; }
                }
                self.i += 1;
                C::Bytes(v)
            }
            "getelementptr" => {
                loop { let p = self.peek_word(); match p { "inbounds" | "nuw" | "nusw" => { self.word(); } "inrange" => { self.word(); self.ws(); self.skip_balanced(); } _ => break } }
                self.expect(b'(')?;
                let sty = self.ty()?;
                self.expect(b',')?;
                let _pt = self.ty()?;
                let base = self.cnst(&Ty::Ptr)?;
                let mut off = 0i64;
                let mut cur = sty;
                let mut first = true;
                while self.eatc(b',') {
                    let it = self.ty()?;
                    let ic = self.cnst(&it)?;
                    let iv = match ic { C::Int(v) => crate::term::sext_c(v, it.width()) as i64, C::Zero => 0, _ => return Err("gep const idx".into()) };
                    if first { off += iv * cur.size() as i64; first = false; }
                    else { let (t2, o) = cur.elem(iv as u64); off += o as i64; cur = t2; }
                }
                self.expect(b')')?;
                match base { C::Glob(g) => C::GlobOff(g, off), C::GlobOff(g, o) => C::GlobOff(g, o + off), C::Int(v) => C::Int((v as i64).wrapping_add(off) as u64 as u128), C::Zero => C::Int(off as u64 as u128), x => C::Bad(format!("gep of {x:?}")) }
            }
            "ptrtoint" | "inttoptr" | "bitcast" | "addrspacecast" | "trunc" | "zext" => {
                self.expect(b'(')?;
                let st = self.ty()?;
                let x = self.cnst(&st)?;
                if !self.eat_word("to") { return Err("to".into()); }
                let dt = self.ty()?;
                self.expect(b')')?;
                match x { C::Int(v) => C::Int(v & crate::term::mask(dt.width().max(1))), x if dt.width() >= 64 => x, _ => C::Bad("const cast".into()) }
            }
            "sub" | "add" | "xor" => {
                let st = self.i;
                while self.peek() != b'(' { self.i += 1; }
                let _ = st;
                self.skip_balanced();
                C::Bad(format!("const expr {w}"))
            }
            "splat" => {
                self.expect(b'(')?;
                let et = self.ty()?;
                let x = self.cnst(&et)?;
                self.expect(b')')?;
                let n = match t { Ty::Vec(n, _) | Ty::Arr(n, _) => *n, _ => 1 };
                C::Agg((0..n).map(|_| (et.clone(), x.clone())).collect())
            }
            "dso_local_equivalent" | "no_cfi" => { self.expect(b'@')?; C::Glob(self.glob()?) }
            "inf" | "nan" | "qnan" => num_const(w, t)?,
            _ if w.starts_with("f0x") || w.starts_with("u0x") || w.starts_with("s0x") => num_const(w, t)?,
            _ => return Err(format!("constant '{w}' {}", self.rest())),
        })
    }
    fn tyopnd(&mut self) -> R<(Ty, Opnd)> { let t = self.ty()?; self.skip_attrs(); let o = self.opnd(&t)?; Ok((t, o)) }
    fn label(&mut self) -> R<u32> {
        if !self.eat_word("label") { return Err(format!("label at {}", self.rest())); }
        self.expect(b'%')?;
        let n = self.name()?;
        Ok(self.locals.as_mut().unwrap().block(&n))
    }
}

fn num_const(s: &str, t: &Ty) -> R<C> {
    match t {
        Ty::F(w) => {
            let bits: u128 = if let Some(h) = s.strip_prefix("0x").or(s.strip_prefix("f0x")) {
                let b = u128::from_str_radix(h.trim_start_matches(|c| c == 'K' || c == 'L' || c == 'M' || c == 'H'), 16).map_err(|e| e.to_string())?;
                if s.starts_with("f0x") { b } else if *w == 32 { (f64::from_bits(b as u64) as f32).to_bits() as u128 } else { b }
            } else {
                let v: f64 = match s { "inf" => f64::INFINITY, "-inf" => f64::NEG_INFINITY, "nan" | "qnan" => f64::NAN, "-nan" | "-qnan" => -f64::NAN, _ => s.parse().map_err(|_| format!("float {s}"))? };
                if *w == 32 { (v as f32).to_bits() as u128 } else { v.to_bits() as u128 }
            };
            Ok(C::Int(bits))
        }
        _ => {
            let w = t.width().max(1);
            if let Some(h) = s.strip_prefix("u0x").or(s.strip_prefix("s0x")) { return Ok(C::Int(u128::from_str_radix(h, 16).map_err(|e| e.to_string())?)); }
            let v = if let Some(n) = s.strip_prefix('-') { n.parse::<u128>().map_err(|_| format!("int {s}"))?.wrapping_neg() } else { s.parse::<u128>().map_err(|_| format!("int {s}"))? };
            Ok(C::Int(v & crate::term::mask(w)))
        }
    }
}

impl Module {
    pub fn line(&self, i: usize) -> &str { let (a, b) = self.lines[i]; &self.text[a as usize..b as usize] }

    pub fn load(path: &str) -> R<Module> {
        let text = std::fs::read_to_string(path).map_err(|e| format!("{path}: {e}"))?;
        let mut lines = vec![];
        let mut st = 0usize;
        for (i, b) in text.bytes().enumerate() { if b == b'\n' { lines.push((st as u32, i as u32)); st = i + 1; } }
        let mut m = Module { text, lines, globals: vec![], by_name: HashMap::new(), types: HashMap::new(), meta: HashMap::new(), funcs: HashMap::new() };
        let n = m.lines.len();
        let mut var_lines = vec![];
        let mut i = 0;
        let mut type_lines = vec![];
        while i < n {
            let l = m.line(i);
            let b = l.as_bytes();
            if b.is_empty() { i += 1; continue; }
            match b[0] {
                b'@' => {
                    let nm = glob_name(l);
                    let ext = l.contains("= external ");
                    var_lines.push((m.globals.len(), i));
                    let g = GlobalDef { name: nm.clone(), line: Some(i), kind: if ext { GK::ExtVar } else { GK::Var }, ty: None, init: None, align: 16 };
                    m.by_name.insert(nm, m.globals.len() as u32);
                    m.globals.push(g);
                }
                b'd' if l.starts_with("define ") || l.starts_with("declare ") => {
                    let at = l.find('@').unwrap();
                    let nm = glob_name(&l[at..]);
                    let def = l.starts_with("define ");
                    let g = GlobalDef { name: nm.clone(), line: Some(i), kind: if def { GK::Func } else { GK::Decl }, ty: None, init: None, align: 16 };
                    m.by_name.insert(nm, m.globals.len() as u32);
                    m.globals.push(g);
                    if def { while m.line(i) != "}" { i += 1; } }
                }
                b'%' => type_lines.push(i),
                b'!' => { let e = l[1..].find(|c: char| !c.is_ascii_digit()).unwrap_or(0); if let Ok(k) = l[1..1 + e].parse() { m.meta.insert(k, i); } }
                _ => {}
            }
            i += 1;
        }
        for i in type_lines {
            let l = m.line(i).to_string();
            if let Some(p) = l.find(" = type ") {
                let nm = l[1..p].trim_matches('"').to_string();
                let mut lx = Lx { s: l[p + 8..].as_bytes(), i: 0, m: &m, locals: None };
                if let Ok(t) = lx.ty() { m.types.insert(nm, t); }
            }
        }
        Ok(m)
    }

    /// Parses the type and initialiser of a global variable.
    pub fn global_init(&mut self, g: u32) -> R<(Ty, Option<Rc<C>>, u64)> {
        let gd = &self.globals[g as usize];
        if let Some(t) = &gd.ty { return Ok((t.clone(), gd.init.clone(), gd.align)); }
        let l = self.line(gd.line.unwrap()).to_string();
        let eq = l.find(" = ").unwrap() + 3;
        let (t, init, align) = {
            let mut lx = Lx { s: l[eq..].as_bytes(), i: 0, m: self, locals: None };
            loop {
                lx.skip_attrs();
                let w = lx.peek_word();
                match w { "constant" | "global" => { lx.word(); break; }
                    "thread_local" => { lx.word(); if lx.peek() == b'(' { lx.skip_balanced(); } }
                    "" => return Err(format!("global: {}", l)),
                    _ => { lx.word(); if lx.peek() == b'(' { lx.skip_balanced(); } } }
            }
            let t = lx.ty()?;
            let init = if gd.kind == GK::Var { Some(Rc::new(lx.cnst(&t)?)) } else { None };
            let mut align = 16;
            if let Some(p) = l.rfind(", align ") { align = l[p + 8..].split(|c: char| !c.is_ascii_digit()).next().unwrap().parse().unwrap_or(16); }
            (t, init, align)
        };
        let gd = &mut self.globals[g as usize];
        gd.ty = Some(t.clone());
        gd.init = init.clone();
        gd.align = align;
        Ok((t, init, align))
    }

    pub fn func(&mut self, g: u32) -> R<Rc<Func>> {
        if let Some(f) = self.funcs.get(&g) { return Ok(f.clone()); }
        let f = Rc::new(self.parse_func(g).map_err(|e| format!("{}: {e}", self.globals[g as usize].name))?);
        self.funcs.insert(g, f.clone());
        Ok(f)
    }

    fn parse_func(&self, g: u32) -> R<Func> {
        let gd = &self.globals[g as usize];
        let mut li = gd.line.unwrap();
        let head = self.line(li).to_string();
        let mut loc = Locals { map: HashMap::new(), blocks: HashMap::new(), nregs: 0 };
        let at = head.find('@').unwrap();
        let mut params = vec![];
        let mut unnamed = 0u32;
        let ret;
        {
            let mut lx = Lx { s: head.as_bytes(), i: 6, m: self, locals: None };
            lx.skip_attrs();
            ret = lx.ty()?;
            lx.i = at + 1;
            lx.name()?;
            lx.expect(b'(')?;
            if !lx.eatc(b')') {
                loop {
                    if lx.s[lx.i..].starts_with(b"...") { lx.i += 3; lx.expect(b')')?; break; }
                    let t = lx.ty()?;
                    lx.skip_attrs();
                    let nm = if lx.peek() == b'%' { lx.i += 1; lx.name()? } else { let s = unnamed.to_string(); s };
                    if nm.bytes().all(|b| b.is_ascii_digit()) { unnamed += 1; }
                    let r = loc.reg(&nm);
                    params.push((r, t));
                    if lx.eatc(b',') { continue; }
                    lx.expect(b')')?;
                    break;
                }
            }
        }
        li += 1;
        let mut blocks: HashMap<u32, Block> = HashMap::new();
        let mut cur: Option<u32> = None;
        loop {
            let l = self.line(li);
            if l == "}" { break; }
            li += 1;
            if l.is_empty() || l.starts_with(';') { continue; }
            if !l.starts_with(' ') {
                // label
                let nm = if l.starts_with('"') { l[1..].split('"').next().unwrap().to_string() } else { l.split(':').next().unwrap().to_string() };
                let b = loc.block(&nm);
                blocks.insert(b, Block { phis: vec![], insts: vec![] });
                cur = Some(b);
                continue;
            }
            if cur.is_none() {
                let b = loc.block(&unnamed.to_string());
                blocks.insert(b, Block { phis: vec![], insts: vec![] });
                cur = Some(b);
            }
            let tl = l.trim_start();
            if tl.starts_with("#dbg_") || tl.starts_with("cleanup") || tl.starts_with("catch ") || tl.starts_with("filter ") { continue; }
            let mut full = l.to_string();
            if (tl.starts_with("switch ") && !l.contains(']')) || (l.ends_with('[') ) {
                loop { let n = self.line(li); li += 1; full.push(' '); full.push_str(n); if n.trim_start().starts_with(']') { break; } }
            }
            if tl.starts_with("invoke ") || tl.contains("= invoke ") {
                while !full.contains(" unwind label ") { full.push(' '); full.push_str(self.line(li)); li += 1; }
            }
            let blk = blocks.get_mut(&cur.unwrap()).unwrap();
            self.parse_inst(&full, &mut loc, blk).map_err(|e| format!("{e}\n   in: {full}"))?;
        }
        let nb = loc.blocks.len();
        let mut bv: Vec<Block> = vec![];
        for i in 0..nb as u32 { bv.push(blocks.remove(&i).ok_or("missing block")?); }
        let mut f = Func { id: g, name: gd.name.clone(), nregs: loc.nregs as usize, params, ret, blocks: bv, ipdom: vec![], live_in: vec![], reg_ty: vec![], rpo: vec![], loop_of: vec![], loops: vec![], joins: vec![] };
        analyse(&mut f);
        Ok(f)
    }

    fn parse_inst(&self, full: &str, loc: &mut Locals, blk: &mut Block) -> R<()> {
        let mut dbg = 0u32;
        if let Some(p) = full.rfind("!dbg !") {
            let e = full[p + 6..].find(|c: char| !c.is_ascii_digit()).map(|x| x + p + 6).unwrap_or(full.len());
            dbg = full[p + 6..e].parse().unwrap_or(0);
        }
        let mut lx = Lx { s: full.as_bytes(), i: 0, m: self, locals: Some(loc) };
        let mut dst = None;
        if lx.peek() == b'%' {
            lx.i += 1;
            let n = lx.name()?;
            lx.expect(b'=')?;
            dst = Some(lx.locals.as_mut().unwrap().reg(&n));
        }
        let mut op = lx.word();
        if matches!(op, "tail" | "musttail" | "notail") { op = lx.word(); }
        let flags = |lx: &mut Lx| loop {
            match lx.peek_word() { "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "samesign" | "inbounds" | "nusw" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "volatile" | "atomic" | "weak" => { lx.word(); } _ => break }
        };
        let bin = |s: &str| Some(match s {
            "add" => Bin::Add, "sub" => Bin::Sub, "mul" => Bin::Mul, "udiv" => Bin::UDiv, "sdiv" => Bin::SDiv, "urem" => Bin::URem, "srem" => Bin::SRem,
            "shl" => Bin::Shl, "lshr" => Bin::LShr, "ashr" => Bin::AShr, "and" => Bin::And, "or" => Bin::Or, "xor" => Bin::Xor,
            "fadd" => Bin::FAdd, "fsub" => Bin::FSub, "fmul" => Bin::FMul, "fdiv" => Bin::FDiv, "frem" => Bin::FRem, _ => return None });
        let cast = |s: &str| Some(match s {
            "trunc" => Cast::Trunc, "zext" => Cast::ZExt, "sext" => Cast::SExt, "ptrtoint" | "ptrtoaddr" => Cast::PtrToInt, "inttoptr" => Cast::IntToPtr, "bitcast" | "addrspacecast" => Cast::BitCast,
            "uitofp" => Cast::U2F, "sitofp" => Cast::S2F, "fptoui" => Cast::F2U, "fptosi" => Cast::F2S, "fpext" => Cast::FExt, "fptrunc" => Cast::FTrunc, _ => return None });
        let k = if let Some(b) = bin(op) {
            flags(&mut lx);
            let (t, a) = lx.tyopnd()?;
            lx.expect(b',')?;
            let c = lx.opnd(&t)?;
            K::Bin(b, t, a, c)
        } else if let Some(c) = cast(op) {
            flags(&mut lx);
            let (t, a) = lx.tyopnd()?;
            if !lx.eat_word("to") { return Err("to".into()); }
            let dt = lx.ty()?;
            K::Cast(c, t, dt, a)
        } else {
            match op {
                "icmp" => {
                    flags(&mut lx);
                    let p = match lx.word() { "eq" => Pred::Eq, "ne" => Pred::Ne, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "ult" => Pred::Ult, "ule" => Pred::Ule, "sgt" => Pred::Sgt, "sge" => Pred::Sge, "slt" => Pred::Slt, "sle" => Pred::Sle, x => return Err(format!("pred {x}")) };
                    let (t, a) = lx.tyopnd()?;
                    lx.expect(b',')?;
                    let c = lx.opnd(&t)?;
                    K::Icmp(p, t, a, c)
                }
                "fcmp" => {
                    flags(&mut lx);
                    let p = lx.word().to_string();
                    let (t, a) = lx.tyopnd()?;
                    lx.expect(b',')?;
                    let c = lx.opnd(&t)?;
                    K::Fcmp(p, t, a, c)
                }
                "fneg" => { flags(&mut lx); let (t, a) = lx.tyopnd()?; K::FNeg(t, a) }
                "load" => {
                    flags(&mut lx);
                    let t = lx.ty()?;
                    lx.expect(b',')?;
                    let (_, p) = lx.tyopnd()?;
                    K::Load(t, p)
                }
                "store" => {
                    flags(&mut lx);
                    let (t, v) = lx.tyopnd()?;
                    lx.expect(b',')?;
                    let (_, p) = lx.tyopnd()?;
                    K::Store(t, v, p)
                }
                "getelementptr" => {
                    flags(&mut lx);
                    if lx.peek_word() == "inrange" { lx.word(); lx.ws(); lx.skip_balanced(); }
                    let mut cur = lx.ty()?;
                    lx.expect(b',')?;
                    let (bt, base) = lx.tyopnd()?;
                    if let Ty::Vec(..) = bt { K::Unsupported("vector gep".into()) } else {
                        let mut off = 0i64;
                        let mut idx = vec![];
                        let mut first = true;
                        while lx.peek() == b',' {
                            lx.i += 1;
                            if lx.peek() == b'!' { break; }
                            let (it, o) = lx.tyopnd()?;
                            let scale_t = if first { first = false; cur.clone() } else {
                                match &cur {
                                    Ty::Struct(..) => {
                                        let iv = match &o { Opnd::Const(c) => match **c { C::Int(v) => v as u64, C::Zero => 0, _ => return Err("gep".into()) }, _ => return Err("gep struct idx".into()) };
                                        let (t2, oo) = cur.elem(iv);
                                        off += oo as i64;
                                        cur = t2;
                                        continue;
                                    }
                                    _ => { let (t2, _) = cur.elem(0); cur = t2; cur.clone() }
                                }
                            };
                            let sz = scale_t.size();
                            match &o {
                                Opnd::Const(c) => match **c { C::Int(v) => off += crate::term::sext_c(v, it.width()) as i64 * sz as i64, C::Zero => {}, _ => return Err("gep idx".into()) },
                                _ => idx.push((o, sz, it.width())),
                            }
                        }
                        K::Gep(base, off, idx)
                    }
                }
                "select" => {
                    flags(&mut lx);
                    let (ct, c) = lx.tyopnd()?;
                    lx.expect(b',')?;
                    let (t, a) = lx.tyopnd()?;
                    lx.expect(b',')?;
                    let (_, b) = lx.tyopnd()?;
                    if let Ty::Vec(..) = ct { K::Unsupported("vector select".into()) } else { K::Select(t, c, a, b) }
                }
                "alloca" => {
                    if lx.peek_word() == "inalloca" { lx.word(); }
                    let t = lx.ty()?;
                    let mut n = Opnd::Const(Rc::new(C::Int(1)));
                    if lx.peek() == b',' {
                        let save = lx.i;
                        lx.i += 1;
                        if lx.is_ty_start() { n = lx.tyopnd()?.1; } else { lx.i = save; }
                    }
                    K::Alloca(t, n)
                }
                "phi" => {
                    flags(&mut lx);
                    let t = lx.ty()?;
                    let mut inc = HashMap::new();
                    loop {
                        lx.expect(b'[')?;
                        let o = lx.opnd(&t)?;
                        lx.expect(b',')?;
                        lx.expect(b'%')?;
                        let n = lx.name()?;
                        let b = lx.locals.as_mut().unwrap().block(&n);
                        lx.expect(b']')?;
                        inc.insert(b, o);
                        if lx.peek() == b',' { let save = lx.i; lx.i += 1; if lx.peek() == b'[' { continue; } lx.i = save; }
                        break;
                    }
                    blk.phis.push((dst.unwrap(), t, inc));
                    return Ok(());
                }
                "call" | "invoke" => {
                    flags(&mut lx);
                    lx.skip_attrs();
                    let rt = lx.ty()?;
                    let callee;
                    if lx.eat_word("asm") {
                        callee = Callee::Asm;
                        blk.insts.push(Inst { dst, k: K::Unsupported("inline asm".into()), dbg });
                        if full.contains("asm sideeffect \"\"") || full.contains("asm \"\"") || full.contains("asm sideeffect alignstack \"\"") { blk.insts.pop(); if dst.is_none() { blk.insts.push(Inst { dst, k: K::Nop, dbg }); } else { blk.insts.push(Inst { dst, k: K::Unsupported("asm value".into()), dbg }); } }
                        let _ = callee;
                        return Ok(());
                    }
                    lx.skip_attrs();
                    match lx.peek() {
                        b'@' => { lx.i += 1; callee = Callee::Direct(lx.glob()?); }
                        b'%' => { callee = Callee::Indirect(lx.opnd(&Ty::Ptr)?); }
                        _ => { callee = Callee::Indirect(lx.opnd(&Ty::Ptr)?); }
                    }
                    lx.expect(b'(')?;
                    let mut args = vec![];
                    if !lx.eatc(b')') {
                        loop {
                            if lx.peek_word() == "metadata" {
                                lx.word();
                                // skip to matching , or )
                                let mut d = 0;
                                while lx.i < lx.s.len() { match lx.s[lx.i] { b'(' => d += 1, b')' => { if d == 0 { break; } d -= 1 } b',' => if d == 0 { break; }, _ => {} } lx.i += 1; }
                            } else {
                                args.push(lx.tyopnd()?);
                            }
                            if lx.eatc(b',') { continue; }
                            lx.expect(b')')?;
                            break;
                        }
                    }
                    let mut normal = None;
                    if op == "invoke" {
                        while lx.peek_word() != "to" {
                            let p = lx.peek();
                            if p == 0 { return Err("invoke to".into()); }
                            if p == b'[' { while lx.s[lx.i] != b']' { lx.i += 1; } lx.i += 1; continue; }
                            if lx.peek_word().is_empty() { lx.i += 1; } else { lx.word(); if lx.peek() == b'(' { lx.skip_balanced(); } }
                        }
                        lx.word();
                        normal = Some(lx.label()?);
                        lx.eat_word("unwind");
                        // register the unwind label so that numbering stays consistent
                        lx.label()?;
                    }
                    K::Call(rt, callee, args, normal)
                }
                "extractvalue" => {
                    let (t, a) = lx.tyopnd()?;
                    let mut ix = vec![];
                    while lx.eatc(b',') { if lx.peek() == b'!' { break; } ix.push(lx.num()? as u32); }
                    K::ExtractValue(a, t, ix)
                }
                "insertvalue" => {
                    let (t, a) = lx.tyopnd()?;
                    lx.expect(b',')?;
                    let (_, v) = lx.tyopnd()?;
                    let mut ix = vec![];
                    while lx.eatc(b',') { if lx.peek() == b'!' { break; } ix.push(lx.num()? as u32); }
                    K::InsertValue(a, t, v, ix)
                }
                "freeze" => { let (t, a) = lx.tyopnd()?; K::Freeze(t, a) }
                "br" => {
                    if lx.peek_word() == "label" { K::Br(lx.label()?) } else {
                        let (_, c) = lx.tyopnd()?;
                        lx.expect(b',')?;
                        let a = lx.label()?;
                        lx.expect(b',')?;
                        let b = lx.label()?;
                        K::CondBr(c, a, b)
                    }
                }
                "switch" => {
                    let (t, v) = lx.tyopnd()?;
                    lx.expect(b',')?;
                    let d = lx.label()?;
                    lx.expect(b'[')?;
                    let mut cs = vec![];
                    while !lx.eatc(b']') {
                        let ct = lx.ty()?;
                        let c = lx.cnst(&ct)?;
                        lx.expect(b',')?;
                        let b = lx.label()?;
                        if let C::Int(x) = c { cs.push((x, b)); } else { return Err("switch case".into()); }
                    }
                    K::Switch(t, v, d, cs)
                }
                "ret" => { if lx.peek_word() == "void" { K::RetVoid } else { let (t, o) = lx.tyopnd()?; K::Ret(t, o) } }
                "unreachable" => K::Unreachable,
                "resume" => K::Unsupported("resume".into()),
                "landingpad" => K::Unsupported("landingpad".into()),
                "fence" => K::Nop,
                "atomicrmw" => {
                    flags(&mut lx);
                    let o = lx.word().to_string();
                    let (_, p) = lx.tyopnd()?;
                    lx.expect(b',')?;
                    let (t, v) = lx.tyopnd()?;
                    K::AtomicRmw(o, t, p, v)
                }
                "cmpxchg" => {
                    flags(&mut lx);
                    let (_, p) = lx.tyopnd()?;
                    lx.expect(b',')?;
                    let (t, c) = lx.tyopnd()?;
                    lx.expect(b',')?;
                    let (_, n) = lx.tyopnd()?;
                    K::CmpXchg(t, p, c, n)
                }
                _ => K::Unsupported(format!("instruction {op}")),
            }
        };
        blk.insts.push(Inst { dst, k, dbg });
        Ok(())
    }
}

fn glob_name(l: &str) -> String {
    let b = l.as_bytes();
    if b[1] == b'"' { l[2..].split('"').next().unwrap().to_string() } else {
        let e = l[1..].find(|c: char| !(c.is_ascii_alphanumeric() || matches!(c, '_' | '.' | '$' | '-'))).unwrap_or(l.len() - 1);
        l[1..1 + e].to_string()
    }
}

pub const EXIT: u32 = u32::MAX;
pub const NONE: u32 = u32::MAX - 1;

fn succs(b: &Block) -> Vec<u32> {
    match b.insts.last().map(|i| &i.k) {
        Some(K::Br(x)) => vec![*x],
        Some(K::CondBr(_, a, c)) => vec![*a, *c],
        Some(K::Switch(_, _, d, cs)) => { let mut v = vec![*d]; v.extend(cs.iter().map(|c| c.1)); v.sort(); v.dedup(); v }
        Some(K::Call(_, _, _, Some(n))) => vec![*n],
        _ => vec![],
    }
}

fn uses(k: &K, f: &mut dyn FnMut(u32)) {
    let mut u = |o: &Opnd| if let Opnd::Reg(r) = o { f(*r) };
    match k {
        K::Bin(_, _, a, b) | K::Icmp(_, _, a, b) | K::Fcmp(_, _, a, b) => { u(a); u(b) }
        K::FNeg(_, a) | K::Cast(_, _, _, a) | K::Load(_, a) | K::Freeze(_, a) | K::Ret(_, a) | K::ExtractValue(a, _, _) | K::Alloca(_, a) => u(a),
        K::Store(_, a, b) | K::InsertValue(a, _, b, _) | K::AtomicRmw(_, _, a, b) => { u(a); u(b) }
        K::Gep(b, _, ix) => { u(b); for i in ix { u(&i.0) } }
        K::Select(_, a, b, c) | K::CmpXchg(_, a, b, c) => { u(a); u(b); u(c) }
        K::Call(_, c, args, _) => { if let Callee::Indirect(o) = c { u(o) } for a in args { u(&a.1) } }
        K::CondBr(c, _, _) => u(c),
        K::Switch(_, c, _, _) => u(c),
        _ => {}
    }
}

/// Natural loops and a topological block order in which loops are contiguous.
fn loop_forest(f: &mut Func, sc: &[Vec<u32>], preds: &[Vec<usize>]) {
    let n = f.blocks.len();
    f.joins = preds.iter().map(|p| p.len() > 1).collect();
    // plain reverse postorder and dominators
    let post = |first: &dyn Fn(usize, usize) -> u32| {
        let mut order = vec![];
        let mut seen = vec![false; n];
        let mut st: Vec<(usize, Vec<u32>, usize)> = vec![];
        let succ = |b: usize| { let mut v = sc[b].clone(); v.sort_by_key(|x| first(b, *x as usize)); v };
        seen[0] = true;
        st.push((0, succ(0), 0));
        while let Some((b, v, i)) = st.pop() {
            if i < v.len() { let x = v[i] as usize; st.push((b, v, i + 1)); if !seen[x] { seen[x] = true; st.push((x, succ(x), 0)); } } else { order.push(b); }
        }
        order.reverse();
        order
    };
    let order = post(&|_, _| 0);
    let mut num = vec![usize::MAX; n];
    for (i, b) in order.iter().enumerate() { num[*b] = i; }
    let mut idom = vec![usize::MAX; n];
    idom[0] = 0;
    let mut ch = true;
    while ch {
        ch = false;
        for &b in order.iter().skip(1) {
            let mut ni = usize::MAX;
            for &p in &preds[b] {
                if idom[p] == usize::MAX { continue; }
                if ni == usize::MAX { ni = p; continue; }
                let (mut x, mut y) = (ni, p);
                while x != y { while num[x] > num[y] { x = idom[x]; } while num[y] > num[x] { y = idom[y]; } }
                ni = x;
            }
            if ni != usize::MAX && idom[b] != ni { idom[b] = ni; ch = true; }
        }
    }
    let dom = |h: usize, mut b: usize| { loop { if b == h { return true; } if b == 0 || idom[b] == usize::MAX { return false; } b = idom[b]; } };
    let mut bodies: Vec<(usize, Vec<bool>, usize)> = vec![];
    for &h in &order {
        let mut body = vec![false; n];
        let mut wl: Vec<usize> = vec![];
        for &p in &preds[h] { if num[p] != usize::MAX && dom(h, p) { wl.push(p); } }
        if wl.is_empty() { continue; }
        body[h] = true;
        while let Some(x) = wl.pop() { if !body[x] { body[x] = true; wl.extend(preds[x].iter().filter(|p| num[**p] != usize::MAX)); } }
        let k = body.iter().filter(|x| **x).count();
        bodies.push((h, body, k));
    }
    bodies.sort_by_key(|b| std::cmp::Reverse(b.2)); // outer loops first
    f.loop_of = vec![NONE; n];
    for (i, (h, body, _)) in bodies.iter().enumerate() {
        let par = f.loop_of[*h];
        f.loops.push((*h as u32, par));
        for b in 0..n { if body[b] { f.loop_of[b] = i as u32; } }
    }
    let lo = f.loop_of.clone();
    let loops = f.loops.clone();
    // visit successors that leave more loops first: they end up later in the order
    let depth_common = move |b: usize, x: usize| {
        let chain = |mut l: u32| { let mut v = vec![]; while l != NONE { v.push(l); l = loops[l as usize].1; } v.reverse(); v };
        let (p, q) = (chain(lo[b]), chain(lo[x]));
        p.iter().zip(q.iter()).take_while(|(a, b)| a == b).count() as u32
    };
    let order = post(&depth_common);
    f.rpo = vec![u32::MAX; n];
    for (i, b) in order.iter().enumerate() { f.rpo[*b] = i as u32; }
}

/// Post-dominators (over paths that can reach a return) and register liveness.
fn analyse(f: &mut Func) {
    let n = f.blocks.len();
    let sc: Vec<Vec<u32>> = f.blocks.iter().map(succs).collect();
    let mut preds: Vec<Vec<usize>> = vec![vec![]; n];
    for (i, s) in sc.iter().enumerate() { for x in s { preds[*x as usize].push(i); } }
    let is_ret = |b: &Block| matches!(b.insts.last().map(|i| &i.k), Some(K::Ret(..)) | Some(K::RetVoid));
    // blocks which can reach a return
    let mut reach = vec![false; n];
    let mut wl: Vec<usize> = (0..n).filter(|i| is_ret(&f.blocks[*i])).collect();
    for x in &wl { reach[*x] = true; }
    while let Some(x) = wl.pop() { for p in &preds[x] { if !reach[*p] { reach[*p] = true; wl.push(*p); } } }
    // reverse postorder from the exit on the reverse graph
    let mut order = vec![];
    let mut seen = vec![false; n];
    fn dfs(x: usize, preds: &Vec<Vec<usize>>, reach: &Vec<bool>, seen: &mut Vec<bool>, order: &mut Vec<usize>) {
        let mut st = vec![(x, 0usize)];
        seen[x] = true;
        while let Some((b, i)) = st.pop() {
            if i < preds[b].len() {
                st.push((b, i + 1));
                let p = preds[b][i];
                if reach[p] && !seen[p] { seen[p] = true; st.push((p, 0)); }
            } else { order.push(b); }
        }
    }
    for r in 0..n { if is_ret(&f.blocks[r]) && !seen[r] { dfs(r, &preds, &reach, &mut seen, &mut order); } }
    order.reverse();
    let mut num = vec![usize::MAX; n + 1];
    for (i, b) in order.iter().enumerate() { num[*b] = i + 1; }
    num[n] = 0; // exit
    let mut idom = vec![usize::MAX; n + 1];
    idom[n] = n;
    let inter = |mut a: usize, mut b: usize, idom: &Vec<usize>| { while a != b { while num[a] > num[b] { a = idom[a]; } while num[b] > num[a] { b = idom[b]; } } a };
    let mut ch = true;
    while ch {
        ch = false;
        for &b in &order {
            let mut ni = usize::MAX;
            if is_ret(&f.blocks[b]) { ni = n; }
            for s in &sc[b] { let s = *s as usize; if reach[s] && idom[s] != usize::MAX { ni = if ni == usize::MAX { s } else { inter(ni, s, &idom) }; } }
            if ni != usize::MAX && idom[b] != ni { idom[b] = ni; ch = true; }
        }
    }
    f.ipdom = (0..n).map(|i| if idom[i] == usize::MAX { NONE } else if idom[i] == n { EXIT } else { idom[i] as u32 }).collect();
    loop_forest(f, &sc, &preds);
    // liveness
    let words = (f.nregs + 63) / 64;
    let mut gen_ = vec![vec![0u64; words]; n];
    let mut kill = vec![vec![0u64; words]; n];
    let mut phi_use: Vec<Vec<u64>> = vec![vec![0u64; words]; n]; // uses on the edge out of pred
    for (i, b) in f.blocks.iter().enumerate() {
        for (d, _, inc) in &b.phis {
            kill[i][*d as usize / 64] |= 1 << (*d % 64);
            for (p, o) in inc { if let Opnd::Reg(r) = o { phi_use[*p as usize][*r as usize / 64] |= 1 << (*r % 64); } }
        }
        for ins in &b.insts {
            uses(&ins.k, &mut |r| { if kill[i][r as usize / 64] >> (r % 64) & 1 == 0 { gen_[i][r as usize / 64] |= 1 << (r % 64); } });
            if let Some(d) = ins.dst { kill[i][d as usize / 64] |= 1 << (d % 64); }
        }
    }
    let mut live = gen_.clone();
    let mut ch = true;
    while ch {
        ch = false;
        for i in (0..n).rev() {
            for w in 0..words {
                let mut out = phi_use[i][w];
                for s in &sc[i] { out |= live[*s as usize][w]; }
                let v = gen_[i][w] | (out & !kill[i][w]);
                if v != live[i][w] { live[i][w] = v; ch = true; }
            }
        }
    }
    f.live_in = live;
    let mut rt = vec![Ty::Other; f.nregs];
    for (r, t) in &f.params { rt[*r as usize] = t.clone(); }
    for b in &f.blocks {
        for (d, t, _) in &b.phis { rt[*d as usize] = t.clone(); }
        for i in &b.insts {
            let Some(d) = i.dst else { continue };
            rt[d as usize] = match &i.k {
                K::Bin(_, t, _, _) | K::FNeg(t, _) | K::Load(t, _) | K::Select(t, _, _, _) | K::Freeze(t, _) | K::Call(t, _, _, _) | K::AtomicRmw(_, t, _, _) | K::InsertValue(_, t, _, _) => t.clone(),
                K::Icmp(..) | K::Fcmp(..) => Ty::Int(1),
                K::Cast(_, _, t, _) => t.clone(),
                K::Gep(..) | K::Alloca(..) => Ty::Ptr,
                K::ExtractValue(_, t, ix) => { let mut c = t.clone(); for k in ix { c = match &c { Ty::Struct(..) | Ty::Arr(..) => c.elem(*k as u64).0, _ => Ty::Other }; } c }
                K::CmpXchg(t, ..) => Ty::Struct(Rc::new(vec![t.clone(), Ty::Int(1)]), false),
                _ => Ty::Other,
            };
        }
    }
    f.reg_ty = rt;
}
