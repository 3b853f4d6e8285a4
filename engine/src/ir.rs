//! Reader for textual LLVM IR as emitted by rustc. Function bodies are decoded lazily.
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

pub type TyId = u32;
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ty { Void, Int(u32), F32, F64, Ptr, Vec(u32, TyId), Arr(u64, TyId), Struct(Vec<TyId>, bool), Label, Meta, Func }

#[derive(Clone, Debug)]
pub enum Opd { Reg(u32), Imm(u64), K(u32), Undef }

/// Structured constants (vectors, aggregates, i128).
#[derive(Clone, Debug)]
pub enum K { I(u64), W(u128), Agg(Vec<K>) }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Bin { Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr, FAdd, FSub, FMul, FDiv, FRem }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum FPred { False, Oeq, Ogt, Oge, Olt, Ole, One, Ord, Ueq, Ugt, Uge, Ult, Ule, Une, Uno, True }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cast { Trunc, ZExt, SExt, Bit, PtrInt, FPToUI, FPToSI, UIToFP, SIToFP, FPTrunc, FPExt }

#[derive(Clone, Debug)]
pub struct Edge { pub to: u32, pub copies: Vec<(u32, Opd)> }

#[derive(Clone, Debug)]
pub enum Callee { F(u32), Ind(Opd), Asm(String) }

#[derive(Clone, Debug)]
pub enum Ins {
    Alloca { dst: u32, off: u32 },
    Load { dst: u32, ty: TyId, p: Opd },
    Store { ty: TyId, v: Opd, p: Opd },
    Gep { dst: u32, p: Opd, off: i64, idx: Vec<(Opd, u32, i64)> },
    Bin { dst: u32, op: Bin, ty: TyId, w: u32, a: Opd, b: Opd },
    FNeg { dst: u32, ty: TyId, a: Opd },
    ICmp { dst: u32, p: Pred, ty: TyId, w: u32, a: Opd, b: Opd },
    FCmp { dst: u32, p: FPred, ty: TyId, a: Opd, b: Opd },
    Cast { dst: u32, op: Cast, from: TyId, to: TyId, a: Opd },
    Select { dst: u32, cty: TyId, ty: TyId, c: Opd, a: Opd, b: Opd },
    Copy { dst: u32, a: Opd },
    ExtractV { dst: u32, a: Opd, idx: Vec<u32> },
    InsertV { dst: u32, ty: TyId, a: Opd, v: Opd, idx: Vec<u32> },
    ExtractE { dst: u32, ty: TyId, a: Opd, i: Opd },
    InsertE { dst: u32, ty: TyId, a: Opd, v: Opd, i: Opd },
    Shuffle { dst: u32, ty: TyId, a: Opd, b: Opd, m: Vec<i32> },
    Call { dst: Option<u32>, callee: Callee, rty: TyId, args: Vec<(TyId, Opd)> },
    Rmw { dst: u32, op: String, ty: TyId, p: Opd, v: Opd },
    CmpX { dst: u32, ty: TyId, p: Opd, c: Opd, n: Opd },
    Nop,
    // terminators
    Br(Edge),
    CondBr(Opd, Edge, Edge),
    Switch { w: u32, v: Opd, def: Edge, cases: Vec<(u64, Edge)>, map: Option<HashMap<u64, u32>> },
    Ret(Option<Opd>),
    Unreachable,
}

pub struct Func { pub name: String, pub nregs: u32, pub nparams: u32, pub blocks: Vec<Vec<Ins>>, pub consts: Vec<K>, pub frame: u32, pub id: u32, pub kv: std::cell::OnceCell<Vec<crate::exec::Val>> }

pub struct GlobalDef { pub name: String, pub init: Option<(usize, usize)>, pub constant: bool, pub ty: TyId }
pub struct Module {
    pub text: Vec<u8>,
    pub types: RefCell<TypeTab>,
    /// symbol id -> kind
    pub syms: RefCell<Vec<Sym>>,
    pub names: RefCell<HashMap<String, u32>>,
    pub bodies: RefCell<HashMap<u32, Rc<Func>>>,
    pub encoded: RefCell<Vec<u32>>,
}
#[derive(Clone)]
pub enum Sym {
    Unknown(String),
    Func { name: String, def: usize, noreturn: bool },
    Decl { name: String },
    Global { name: String, pos: usize, constant: bool, ext: bool, ty: TyId },
    Alias { name: String, to: u32 },
}
impl Sym { pub fn name(&self) -> &str { match self { Sym::Unknown(n) | Sym::Func { name: n, .. } | Sym::Decl { name: n } | Sym::Global { name: n, .. } | Sym::Alias { name: n, .. } => n } } }

#[derive(Default)]
pub struct TypeTab { pub t: Vec<Ty>, map: HashMap<Ty, TyId>, pub named: HashMap<String, TyId>, pub sz: Vec<(u64, u64)> }
impl TypeTab {
    pub fn get(&mut self, t: Ty) -> TyId {
        if let Some(i) = self.map.get(&t) { return *i; }
        let i = self.t.len() as u32;
        let s = self.calc(&t);
        self.t.push(t.clone());
        self.sz.push(s);
        self.map.insert(t, i);
        i
    }
    fn calc(&self, t: &Ty) -> (u64, u64) {
        let al = |s: u64, a: u64| s.div_ceil(a) * a;
        match t {
            Ty::Void | Ty::Label | Ty::Meta | Ty::Func => (0, 1),
            Ty::Int(w) => { let b = ((*w as u64) + 7) / 8; let a = b.next_power_of_two().min(16).max(1); (al(b, a), a) }
            Ty::F32 => (4, 4), Ty::F64 => (8, 8), Ty::Ptr => (8, 8),
            Ty::Vec(n, e) => { let s = match self.t[*e as usize] { Ty::Int(1) => (*n as u64 + 7) / 8, _ => self.sz[*e as usize].0 * *n as u64 }; (s, s.next_power_of_two()) }
            Ty::Arr(n, e) => (self.sz[*e as usize].0 * n, self.sz[*e as usize].1),
            Ty::Struct(f, packed) => {
                let (mut o, mut a) = (0, 1);
                for x in f { let (s, xa) = self.sz[*x as usize]; if !packed { o = al(o, xa); a = a.max(xa); } o += s; }
                (al(o, a), a)
            }
        }
    }
    pub fn size(&self, t: TyId) -> u64 { self.sz[t as usize].0 }
    pub fn field(&self, t: TyId, i: u64) -> (u64, TyId) {
        match &self.t[t as usize] {
            Ty::Arr(_, e) | Ty::Vec(_, e) => (self.sz[*e as usize].0 * i, *e),
            Ty::Struct(f, packed) => {
                let mut o = 0u64;
                for (j, x) in f.iter().enumerate() {
                    let (s, a) = self.sz[*x as usize];
                    if !packed { o = o.div_ceil(a) * a; }
                    if j as u64 == i { return (o, *x); }
                    o += s;
                }
                panic!("field index")
            }
            _ => panic!("field of scalar"),
        }
    }
}

pub const ID_SHIFT: u32 = 32;
pub fn sym_addr(id: u32) -> u64 { ((id as u64) + 1) << ID_SHIFT }

pub struct P<'a> { pub m: &'a Module, pub t: &'a [u8], pub i: usize, locals: HashMap<Vec<u8>, u32>, nregs: u32, consts: Vec<K>, pending: Option<Ins> }

impl<'a> P<'a> {
    pub fn new(m: &'a Module, i: usize) -> Self { P { m, t: &m.text, i, locals: HashMap::new(), nregs: 0, consts: vec![], pending: None } }
    fn die(&self, s: &str) -> ! {
        let ls = self.t[..self.i].iter().rposition(|c| *c == b'\n').map_or(0, |x| x + 1);
        let le = self.t[self.i..].iter().position(|c| *c == b'\n').map_or(self.t.len(), |x| x + self.i);
        panic!("IR parse: {} at col {} of: {}", s, self.i - ls, String::from_utf8_lossy(&self.t[ls..le.min(ls + 600)]));
    }
    fn ws(&mut self) { while self.i < self.t.len() && (self.t[self.i] == b' ' || self.t[self.i] == b'\t') { self.i += 1; } }
    fn wsn(&mut self) { while self.i < self.t.len() && (self.t[self.i] == b' ' || self.t[self.i] == b'\n' || self.t[self.i] == b'\t') { self.i += 1; } }
    fn peek(&mut self) -> u8 { self.ws(); if self.i < self.t.len() { self.t[self.i] } else { 0 } }
    fn eat(&mut self, s: &str) -> bool { self.ws(); if self.t[self.i..].starts_with(s.as_bytes()) { self.i += s.len(); true } else { false } }
    fn exp(&mut self, s: &str) { if !self.eat(s) { self.die(&format!("expected {s}")) } }
    fn word(&mut self) -> &'a str {
        self.ws();
        let s = self.i;
        while self.i < self.t.len() && (self.t[self.i].is_ascii_alphanumeric() || matches!(self.t[self.i], b'_' | b'.' | b'-' | b'$' | b'+')) { self.i += 1; }
        std::str::from_utf8(&self.t[s..self.i]).unwrap()
    }
    fn eatw(&mut self, s: &str) -> bool { let sv = self.i; if self.word() == s { true } else { self.i = sv; false } }
    fn eol(&mut self) { while self.i < self.t.len() && self.t[self.i] != b'\n' { self.i += 1; } if self.i < self.t.len() { self.i += 1; } }
    fn num(&mut self) -> i128 { let w = self.word(); w.parse().unwrap_or_else(|_| self.die("number")) }
    fn skip_parens(&mut self) {
        self.exp("(");
        let mut d = 1;
        while d > 0 { match self.t[self.i] { b'(' => d += 1, b')' => d -= 1, b'"' => { self.i += 1; while self.t[self.i] != b'"' { self.i += 1; } } _ => {} } self.i += 1; }
    }
    fn ident(&mut self) -> String {
        // after @ or %
        if self.t[self.i] == b'"' {
            let s = self.i + 1;
            let mut e = s;
            while self.t[e] != b'"' { e += 1; }
            self.i = e + 1;
            String::from_utf8_lossy(&self.t[s..e]).into_owned()
        } else { self.word().to_string() }
    }
    fn local(&mut self) -> u32 {
        self.exp("%");
        let s = self.i;
        if self.t[self.i] == b'"' { self.i += 1; while self.t[self.i] != b'"' { self.i += 1; } self.i += 1; } else { self.word(); }
        let k = self.t[s..self.i].to_vec();
        let n = self.nregs;
        match self.locals.entry(k) { std::collections::hash_map::Entry::Occupied(o) => *o.get(), std::collections::hash_map::Entry::Vacant(v) => { v.insert(n); self.nregs += 1; n } }
    }
    pub fn ty(&mut self) -> TyId {
        let c = self.peek();
        let g = |t: Ty| self.m.types.borrow_mut().get(t);
        let r = match c {
            b'[' => { self.i += 1; let n = self.num() as u64; self.exp("x"); let e = self.ty(); self.exp("]"); self.m.types.borrow_mut().get(Ty::Arr(n, e)) }
            b'{' => { self.i += 1; let f = self.tylist(); self.exp("}"); self.m.types.borrow_mut().get(Ty::Struct(f, false)) }
            b'<' => {
                self.i += 1;
                if self.peek() == b'{' { self.i += 1; let f = self.tylist(); self.exp("}"); self.exp(">"); self.m.types.borrow_mut().get(Ty::Struct(f, true)) }
                else { let n = self.num() as u32; self.exp("x"); let e = self.ty(); self.exp(">"); self.m.types.borrow_mut().get(Ty::Vec(n, e)) }
            }
            b'%' => { self.i += 1; let n = self.ident(); let r = self.m.types.borrow().named.get(&n).copied(); r.unwrap_or_else(|| self.die("named type")) }
            _ => {
                let w = self.word();
                match w {
                    "void" => g(Ty::Void), "ptr" => { let r = g(Ty::Ptr); if self.eatw("addrspace") { self.skip_parens(); } r }
                    "float" => g(Ty::F32), "double" => g(Ty::F64), "label" => g(Ty::Label), "metadata" => g(Ty::Meta), "token" => g(Ty::Meta),
                    "half" => g(Ty::Int(16)), "fp128" => g(Ty::Int(128)), "x86_fp80" => g(Ty::Int(80)), "bfloat" => g(Ty::Int(16)),
                    "opaque" => g(Ty::Void),
                    _ if w.starts_with('i') => match w[1..].parse() { Ok(n) => g(Ty::Int(n)), Err(_) => self.die("type") },
                    _ => self.die("type"),
                }
            }
        };
        r
    }
    fn tylist(&mut self) -> Vec<TyId> {
        let mut v = vec![];
        if self.peek() == b'}' { return v; }
        loop { v.push(self.ty()); if !self.eat(",") { break; } }
        v
    }
    fn symref(&mut self) -> u32 { self.exp("@"); let n = self.ident(); self.m.sym(&n) }
    fn width(&self, t: TyId) -> u32 { match self.m.types.borrow().t[t as usize] { Ty::Int(w) => w, Ty::Ptr | Ty::F64 => 64, Ty::F32 => 32, _ => 0 } }
    /// Parse a constant of type `t`.
    pub fn konst(&mut self, t: TyId) -> K {
        let c = self.peek();
        let ty = self.m.types.borrow().t[t as usize].clone();
        let zero = |p: &Self, t: TyId| p.zero(t);
        match c {
            b'@' => { let s = self.symref(); return K::I(self.m.addr_of(s)); }
            b'{' | b'[' => {
                self.i += 1;
                let mut v = vec![];
                if self.peek() != b'}' && self.t[self.i] != b']' { loop { let et = self.ty(); v.push(self.konst(et)); if !self.eat(",") { break; } } }
                self.ws(); self.i += 1;
                return K::Agg(v);
            }
            b'<' => {
                self.i += 1;
                let st = self.peek() == b'{';
                if st { self.i += 1; }
                let mut v = vec![];
                if self.peek() != b'}' { loop { let et = self.ty(); v.push(self.konst(et)); if !self.eat(",") { break; } } }
                if st { self.exp("}"); }
                self.exp(">");
                return K::Agg(v);
            }
            b'c' if self.t[self.i + 1] == b'"' => {
                self.i += 2;
                let mut v = vec![];
                while self.t[self.i] != b'"' {
                    if self.t[self.i] == b'\\' && self.t[self.i + 1] == b'\\' { v.push(K::I(92)); self.i += 2; }
                    else if self.t[self.i] == b'\\' { let h = std::str::from_utf8(&self.t[self.i + 1..self.i + 3]).unwrap(); v.push(K::I(u64::from_str_radix(h, 16).unwrap())); self.i += 3; }
                    else { v.push(K::I(self.t[self.i] as u64)); self.i += 1; }
                }
                self.i += 1;
                return K::Agg(v);
            }
            _ => {}
        }
        let w = self.word().to_string();
        match w.as_str() {
            "zeroinitializer" | "undef" | "poison" | "null" | "none" => zero(self, t),
            "true" => K::I(1), "false" => K::I(0),
            "splat" => {
                self.exp("("); let et = self.ty(); let k = self.konst(et); self.exp(")");
                let n = match ty { Ty::Vec(n, _) => n as usize, Ty::Arr(n, _) => n as usize, _ => self.die("splat") };
                K::Agg(vec![k; n])
            }
            "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "addrspacecast" | "ptrtoaddr" | "zext" => {
                self.exp("("); let et = self.ty(); let k = self.konst(et); self.exp("to"); let tt = self.ty(); self.exp(")");
                if let (K::I(v), Ty::Int(wd)) = (&k, &self.m.types.borrow().t[tt as usize]) { return K::I(v & crate::expr::mask64(*wd)); }
                k
            }
            "getelementptr" => {
                while { let sv = self.i; let x = self.word(); if matches!(x, "inbounds" | "nuw" | "nusw") { true } else if x == "inrange" { self.skip_parens(); true } else { self.i = sv; false } } {}
                self.exp("(");
                let bt = self.ty(); self.exp(",");
                let pt = self.ty(); let K::I(mut a) = self.konst(pt) else { self.die("gep") };
                let mut cur = bt; let mut first = true;
                while self.eat(",") {
                    let it = self.ty(); let K::I(ix) = self.konst(it) else { self.die("gepi") };
                    let wd = self.width(it);
                    let sx = crate::expr::sext(ix as u128, wd) as i64;
                    if first { a = a.wrapping_add((self.m.types.borrow().size(cur) as i64).wrapping_mul(sx) as u64); first = false; }
                    else { let (o, n) = self.m.types.borrow().field(cur, sx as u64); a = a.wrapping_add(o); cur = n; }
                }
                self.exp(")");
                K::I(a)
            }
            "add" | "sub" | "xor" | "and" => {
                while self.eatw("nuw") || self.eatw("nsw") {}
                self.exp("("); let t1 = self.ty(); let K::I(a) = self.konst(t1) else { self.die("k") }; self.exp(","); let t2 = self.ty(); let K::I(b) = self.konst(t2) else { self.die("k") }; self.exp(")");
                let m = crate::expr::mask64(self.width(t1));
                K::I(match w.as_str() { "add" => a.wrapping_add(b), "sub" => a.wrapping_sub(b), "xor" => a ^ b, _ => a & b } & m)
            }
            "blockaddress" | "dso_local_equivalent" | "no_cfi" => self.die("const kind"),
            _ => match ty {
                Ty::Int(wd) => {
                    if let Some(h) = w.strip_prefix("u0x").or_else(|| w.strip_prefix("s0x")) { let v = u128::from_str_radix(h, 16).unwrap(); return if wd > 64 { K::W(v) } else { K::I(v as u64) }; }
                    let v: u128 = if let Some(n) = w.strip_prefix('-') { (n.parse::<u128>().unwrap_or_else(|_| self.die("int"))).wrapping_neg() } else { w.parse().unwrap_or_else(|_| self.die("int")) };
                    let v = v & crate::expr::mask(wd);
                    if wd > 64 { K::W(v) } else { K::I(v as u64) }
                }
                Ty::F64 => {
                    if let Some(h) = w.strip_prefix("f0x").or_else(|| w.strip_prefix("0x")) { K::I(u64::from_str_radix(h, 16).unwrap()) }
                    else { let f: f64 = match w.as_str() { "inf" | "pinf" | "+inf" => f64::INFINITY, "-inf" | "ninf" => f64::NEG_INFINITY, "nan" | "qnan" | "+qnan" => f64::NAN, "-nan" | "-qnan" => -f64::NAN, _ => w.parse().unwrap_or_else(|_| self.die("float")) }; K::I(f.to_bits()) }
                }
                Ty::F32 => {
                    if let Some(h) = w.strip_prefix("f0x") { K::I(u64::from_str_radix(h, 16).unwrap()) }
                    else if let Some(h) = w.strip_prefix("0x") { let d = f64::from_bits(u64::from_str_radix(h, 16).unwrap()); K::I((d as f32).to_bits() as u64) }
                    else { let f: f32 = match w.as_str() { "inf" | "pinf" | "+inf" => f32::INFINITY, "-inf" | "ninf" => f32::NEG_INFINITY, "nan" | "qnan" | "+qnan" => f32::NAN, "-nan" | "-qnan" => -f32::NAN, _ => w.parse().unwrap_or_else(|_| self.die("float")) }; K::I(f.to_bits() as u64) }
                }
                _ => self.die("constant"),
            },
        }
    }
    fn zero(&self, t: TyId) -> K {
        let tt = self.m.types.borrow();
        fn go(tt: &TypeTab, t: TyId) -> K {
            match &tt.t[t as usize] {
                Ty::Int(w) if *w > 64 => K::W(0),
                Ty::Vec(n, e) => K::Agg(vec![go(tt, *e); *n as usize]),
                Ty::Arr(n, e) => K::Agg(vec![go(tt, *e); *n as usize]),
                Ty::Struct(f, _) => K::Agg(f.iter().map(|x| go(tt, *x)).collect()),
                _ => K::I(0),
            }
        }
        go(&tt, t)
    }
    fn opd(&mut self, t: TyId) -> Opd {
        if self.peek() == b'%' { return Opd::Reg(self.local()); }
        if matches!(self.m.types.borrow().t[t as usize], Ty::Meta) {
            // metadata operand: skip
            let mut d = 0;
            while self.i < self.t.len() { let c = self.t[self.i]; if d == 0 && (c == b',' || c == b')') { break; } if c == b'(' { d += 1 } if c == b')' { d -= 1 } if c == b'"' { self.i += 1; while self.t[self.i] != b'"' { self.i += 1; } } self.i += 1; }
            return Opd::Undef;
        }
        match self.konst(t) { K::I(v) => Opd::Imm(v), k => { self.consts.push(k); Opd::K(self.consts.len() as u32 - 1) } }
    }
    fn attrs(&mut self) {
        // parameter / return attributes
        loop {
            let sv = self.i;
            if self.peek() == b'"' { self.i += 1; while self.t[self.i] != b'"' { self.i += 1; } self.i += 1; if self.eat("=") { self.exp("\""); while self.t[self.i] != b'"' { self.i += 1; } self.i += 1; } continue; }
            let w = self.word();
            match w {
                "align" => { if self.peek() == b'(' { self.skip_parens(); } else { self.num(); } }
                "noalias" | "nofree" | "noundef" | "nonnull" | "readonly" | "readnone" | "writeonly" | "writable" | "nocapture" | "zeroext" | "signext" | "inreg" | "returned" | "nest" | "immarg" | "swiftself" | "dead_on_unwind" | "dead_on_return" | "allocptr" | "allocalign" | "swifterror" | "noext" | "nosync" => { if self.peek() == b'(' { self.skip_parens(); } }
                "dereferenceable" | "dereferenceable_or_null" | "sret" | "byval" | "captures" | "range" | "initializes" | "nofpclass" | "allocsize" | "elementtype" | "inalloca" | "byref" | "preallocated" | "allockind" | "memory" | "dead_on_return_" => self.skip_parens(),
                _ => { self.i = sv; return; }
            }
        }
    }
    fn fmf(&mut self) { loop { let sv = self.i; match self.word() { "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "samesign" | "inbounds" | "nusw" => {} _ => { self.i = sv; return; } } } }
}
impl Module {
    pub fn sym(&self, n: &str) -> u32 {
        let mut names = self.names.borrow_mut();
        if let Some(i) = names.get(n) { return *i; }
        let mut s = self.syms.borrow_mut();
        let i = s.len() as u32;
        s.push(Sym::Unknown(n.to_string()));
        names.insert(n.to_string(), i);
        i
    }
    pub fn addr_of(&self, s: u32) -> u64 { if let Sym::Alias { to, .. } = &self.syms.borrow()[s as usize] { return sym_addr(*to); } sym_addr(s) }
    pub fn load(text: Vec<u8>) -> Module {
        let m = Module { text, types: Default::default(), syms: Default::default(), names: Default::default(), bodies: Default::default(), encoded: Default::default() };
        let t = &m.text;
        // pass 1: named types
        let mut i = 0;
        let n = t.len();
        let mut lines: Vec<(usize, u8)> = vec![];
        while i < n {
            let e = t[i..].iter().position(|c| *c == b'\n').map_or(n, |x| i + x);
            match t[i..].first() {
                Some(b'%') => lines.push((i, b'%')),
                Some(b'@') => lines.push((i, b'@')),
                Some(b'd') if t[i..].starts_with(b"define ") => {
                    lines.push((i, b'f'));
                    // skip to closing brace line
                    let mut j = e + 1;
                    while j < n && t[j] != b'}' { j = t[j..].iter().position(|c| *c == b'\n').map_or(n, |x| j + x + 1); }
                    i = j;
                    continue;
                }
                Some(b'd') if t[i..].starts_with(b"declare ") => lines.push((i, b'd')),
                Some(b'a') if t[i..].starts_with(b"attributes #") => lines.push((i, b'a')),
                _ => {}
            }
            i = e + 1;
        }
        let mut pend: Vec<usize> = lines.iter().filter(|l| l.1 == b'%').map(|l| l.0).collect();
        for _ in 0..4 { let mut next = vec![]; for s in &pend {
            let mut p = P::new(&m, *s + 1);
            let name = p.ident(); p.exp("="); p.exp("type");
            let refs_ok = { let le = t[*s..].iter().position(|c| *c == b'\n').map_or(n, |x| s + x); let mut ok = true; let mut q = p.i; while q < le { if t[q] == b'%' { let mut pp = P::new(&m, q + 1); let nm = pp.ident(); if !m.types.borrow().named.contains_key(&nm) { ok = false; break; } } q += 1; } ok };
            if !refs_ok { next.push(*s); continue; }
            let ty = p.ty();
            m.types.borrow_mut().named.insert(name, ty);
        } pend = next; }
        // noreturn attribute groups
        let mut nor: HashMap<String, bool> = HashMap::new();
        for (s, k) in &lines { if *k == b'a' {
            let le = t[*s..].iter().position(|c| *c == b'\n').map_or(n, |x| s + x);
            let l = std::str::from_utf8(&t[*s..le]).unwrap();
            let id = l[12..].split_whitespace().next().unwrap().to_string();
            nor.insert(id, l.contains(" noreturn"));
        } }
        for (s, k) in &lines {
            let le = t[*s..].iter().position(|c| *c == b'\n').map_or(n, |x| s + x);
            let line = &t[*s..le];
            match k {
                b'f' | b'd' => {
                    let at = find_sym(line);
                    let mut p = P::new(&m, s + at + 1);
                    let name = p.ident();
                    let id = m.sym(&name);
                    let l = std::str::from_utf8(line).unwrap();
                    let noret = l.rsplit('#').next().map(|x| x.split(|c: char| !c.is_ascii_digit()).next().unwrap_or("")).and_then(|x| nor.get(x)).copied().unwrap_or(false);
                    m.syms.borrow_mut()[id as usize] = if *k == b'f' { Sym::Func { name, def: *s, noreturn: noret } } else { Sym::Decl { name } };
                }
                b'@' => {
                    let mut p = P::new(&m, s + 1);
                    let name = p.ident();
                    let id = m.sym(&name);
                    p.exp("=");
                    let mut constant = false; let mut ext = false; let mut alias = false;
                    loop {
                        let sv = p.i;
                        let w = p.word();
                        match w {
                            "private" | "internal" | "unnamed_addr" | "local_unnamed_addr" | "dso_local" | "hidden" | "weak" | "weak_odr" | "linkonce_odr" | "linkonce" | "protected" | "default" | "common" | "appending" | "available_externally" => {}
                            "external" | "extern_weak" => ext = true,
                            "thread_local" => { if p.peek() == b'(' { p.skip_parens(); } }
                            "constant" => { constant = true; break; }
                            "global" => break,
                            "alias" => { alias = true; break; }
                            "ifunc" => { alias = true; break; }
                            _ => { p.i = sv; p.die("global") }
                        }
                    }
                    if alias { let _ = p.ty(); p.exp(","); let pt = p.ty(); let k = p.konst(pt); if let K::I(a) = k { m.syms.borrow_mut()[id as usize] = Sym::Alias { name, to: (a >> ID_SHIFT) as u32 - 1 }; } continue; }
                    let ty = p.ty();
                    m.syms.borrow_mut()[id as usize] = Sym::Global { name, pos: p.i, constant, ext, ty };
                }
                _ => {}
            }
        }
        m
    }
    pub fn func(&self, id: u32) -> Rc<Func> {
        if let Some(f) = self.bodies.borrow().get(&id) { return f.clone(); }
        let (name, def) = match &self.syms.borrow()[id as usize] { Sym::Func { name, def, .. } => (name.clone(), *def), s => panic!("not a function: {}", s.name()) };
        let f = Rc::new(self.parse_fn(id, name, def));
        self.bodies.borrow_mut().insert(id, f.clone());
        self.encoded.borrow_mut().push(id);
        f
    }
    fn parse_fn(&self, id: u32, name: String, def: usize) -> Func {
        let mut p = P::new(self, def);
        let le = self.text[def..].iter().position(|c| *c == b'\n').unwrap() + def;
        let at = find_sym(&self.text[def..le]);
        p.i = def + at + 1;
        p.ident();
        p.exp("(");
        let mut nparams = 0;
        let mut params = vec![];
        if p.peek() != b')' { loop {
            if p.eat("...") { break; }
            let _t = p.ty(); p.attrs();
            if p.peek() == b'%' { params.push(p.local()); } else { params.push(p.nregs); p.nregs += 1; }
            nparams += 1; if !matches!(p.peek(), b',' | b')') { p.die("parameter") }
            if !p.eat(",") { break; }
        } }
        p.eol();
        let mut blocks: Vec<Vec<Ins>> = vec![vec![]];
        let mut labels: HashMap<Vec<u8>, u32> = HashMap::new();
        let mut phis: Vec<(u32, u32, Vec<(Opd, Vec<u8>)>)> = vec![];
        let mut targets: Vec<Vec<u8>> = vec![];
        let mut cur = 0usize;
        let mut frame: u32 = 0;
        let mut first = true;
        // entry label may be implicit
        loop {
            // at line start
            if p.t[p.i] == b'}' { break; }
            if p.t[p.i] == b'\n' { p.i += 1; continue; }
            if p.t[p.i] == b';' { p.eol(); continue; }
            if p.t[p.i] != b' ' {
                // label
                let s = p.i;
                if p.t[p.i] == b'"' { p.i += 1; while p.t[p.i] != b'"' { p.i += 1; } p.i += 1; } else { p.word(); }
                let l = p.t[s..p.i].to_vec();
                if !first || !blocks[0].is_empty() { blocks.push(vec![]); cur = blocks.len() - 1; }
                first = false;
                labels.insert(l, cur as u32);
                p.eol();
                continue;
            }
            p.ws();
            if p.t[p.i] == b';' || p.t[p.i] == b'#' { p.eol(); continue; }
            if p.t[p.i] == b'\n' { p.i += 1; continue; }
            if first { first = false; }
            let ins = p.ins(&mut phis, cur as u32, &mut targets, &mut frame);
            if let Some(i) = ins { blocks[cur].push(i); }
            if let Some(i) = p.pending.take() { blocks[cur].push(i); }
            p.eol();
        }
        // implicit entry label number
        // resolve labels
        let entry_name: Vec<u8> = nparams.to_string().into_bytes();
        labels.entry(entry_name).or_insert(0);
        let lab = |t: u32| -> u32 { *labels.get(&targets[t as usize]).unwrap_or_else(|| panic!("label {} in {}", String::from_utf8_lossy(&targets[t as usize]), name)) };
        let mut byblk: HashMap<u32, Vec<(u32, Vec<(Opd, u32)>)>> = HashMap::new();
        for (b, d, ins) in phis { byblk.entry(b).or_default().push((d, ins.into_iter().map(|(o, l)| (o, *labels.get(&l).unwrap_or(&u32::MAX))).collect())); }
        for (bi, b) in blocks.iter_mut().enumerate() {
            let fix = |e: &mut Edge| {
                e.to = lab(e.to);
                if let Some(ps) = byblk.get(&e.to) { for (d, ins) in ps { if let Some((o, _)) = ins.iter().find(|(_, l)| *l == bi as u32) { e.copies.push((*d, o.clone())); } } }
            };
            for i in b.iter_mut() { match i {
                Ins::Br(e) => fix(e),
                Ins::CondBr(_, a, c) => { fix(a); fix(c); }
                Ins::Switch { def, cases, map, .. } => { fix(def); for (_, e) in cases.iter_mut() { fix(e); } if cases.len() > 6 { *map = Some(cases.iter().enumerate().map(|(i, c)| (c.0, i as u32)).collect()); } }
                _ => {}
            } }
        }
        // params are regs 0..nparams by construction
        for (i, r) in params.iter().enumerate() { assert_eq!(i as u32, *r); }
        Func { name, nregs: p.nregs, nparams, blocks, consts: std::mem::take(&mut p.consts), frame, id, kv: Default::default() }
    }
}
fn find_sym(line: &[u8]) -> usize {
    // first '@' outside quotes and parens
    let (mut q, mut d) = (false, 0);
    for (i, c) in line.iter().enumerate() {
        match c { b'"' => q = !q, b'(' if !q => d += 1, b')' if !q => d -= 1, b'@' if !q && d == 0 => return i, _ => {} }
    }
    panic!("no symbol: {}", String::from_utf8_lossy(&line[..line.len().min(200)]));
}

impl<'a> P<'a> {
    fn edge(&mut self, targets: &mut Vec<Vec<u8>>) -> Edge {
        self.exp("label"); self.exp("%");
        let s = self.i;
        if self.t[self.i] == b'"' { self.i += 1; while self.t[self.i] != b'"' { self.i += 1; } self.i += 1; } else { self.word(); }
        targets.push(self.t[s..self.i].to_vec());
        Edge { to: targets.len() as u32 - 1, copies: vec![] }
    }
    fn ins(&mut self, phis: &mut Vec<(u32, u32, Vec<(Opd, Vec<u8>)>)>, cur: u32, targets: &mut Vec<Vec<u8>>, frame: &mut u32) -> Option<Ins> {
        let dst = if self.peek() == b'%' { let d = self.local(); self.exp("="); Some(d) } else { None };
        let op = self.word();
        let d = dst.unwrap_or(u32::MAX);
        let binop = |o: &str| Some(match o { "add" => Bin::Add, "sub" => Bin::Sub, "mul" => Bin::Mul, "udiv" => Bin::UDiv, "sdiv" => Bin::SDiv, "urem" => Bin::URem, "srem" => Bin::SRem, "and" => Bin::And, "or" => Bin::Or, "xor" => Bin::Xor, "shl" => Bin::Shl, "lshr" => Bin::LShr, "ashr" => Bin::AShr, "fadd" => Bin::FAdd, "fsub" => Bin::FSub, "fmul" => Bin::FMul, "fdiv" => Bin::FDiv, "frem" => Bin::FRem, _ => return None });
        if let Some(b) = binop(op) {
            self.fmf();
            let ty = self.ty(); let a = self.opd(ty); self.exp(","); let bb = self.opd(ty);
            let w = self.width(ty);
            return Some(Ins::Bin { dst: d, op: b, ty, w, a, b: bb });
        }
        match op {
            "alloca" => {
                self.eatw("inalloca");
                let ty = self.ty();
                let mut n = 1u64; let mut al = 8u64;
                while self.eat(",") { if self.eatw("align") { al = self.num() as u64; } else { let t = self.ty(); match self.opd(t) { Opd::Imm(v) => n = v, _ => self.die("dynamic alloca") } } }
                let sz = self.m.types.borrow().size(ty) * n;
                let off = (*frame as u64).div_ceil(al.max(1)) * al.max(1);
                *frame = (off + sz.max(1)) as u32;
                Some(Ins::Alloca { dst: d, off: off as u32 })
            }
            "load" => { if self.eatw("atomic") {} self.eatw("volatile"); let ty = self.ty(); self.exp(","); let pt = self.ty(); let p = self.opd(pt); Some(Ins::Load { dst: d, ty, p }) }
            "store" => { self.eatw("atomic"); self.eatw("volatile"); let ty = self.ty(); let v = self.opd(ty); self.exp(","); let pt = self.ty(); let p = self.opd(pt); Some(Ins::Store { ty, v, p }) }
            "getelementptr" => {
                self.fmf();
                if self.eatw("inrange") { self.skip_parens(); }
                let bt = self.ty(); self.exp(","); let pt = self.ty(); let p = self.opd(pt);
                let mut cur_t = bt; let mut first = true; let mut off = 0i64; let mut idx = vec![];
                while self.peek() == b',' {
                    let sv = self.i;
                    self.i += 1;
                    if self.peek() == b'!' { self.i = sv; break; }
                    let it = self.ty(); let o = self.opd(it); let w = self.width(it);
                    let scale;
                    if first { scale = self.m.types.borrow().size(cur_t) as i64; first = false; }
                    else {
                        let is_struct = matches!(self.m.types.borrow().t[cur_t as usize], Ty::Struct(..));
                        if is_struct { let Opd::Imm(k) = o else { self.die("struct idx") }; let (fo, n) = self.m.types.borrow().field(cur_t, k); off += fo as i64; cur_t = n; continue; }
                        let (s, n) = self.m.types.borrow().field(cur_t, 1); scale = s as i64; cur_t = n;
                    }
                    match o { Opd::Imm(k) => off = off.wrapping_add((crate::expr::sext(k as u128, w) as i64).wrapping_mul(scale)), o => idx.push((o, w, scale)) }
                }
                Some(Ins::Gep { dst: d, p, off, idx })
            }
            "icmp" => {
                self.fmf();
                let p = match self.word() { "eq" => Pred::Eq, "ne" => Pred::Ne, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "ult" => Pred::Ult, "ule" => Pred::Ule, "sgt" => Pred::Sgt, "sge" => Pred::Sge, "slt" => Pred::Slt, "sle" => Pred::Sle, _ => self.die("pred") };
                let ty = self.ty(); let a = self.opd(ty); self.exp(","); let b = self.opd(ty);
                let w = self.width(ty);
                Some(Ins::ICmp { dst: d, p, ty, w, a, b })
            }
            "fcmp" => {
                self.fmf();
                use FPred::*;
                let p = match self.word() { "false" => False, "oeq" => Oeq, "ogt" => Ogt, "oge" => Oge, "olt" => Olt, "ole" => Ole, "one" => One, "ord" => Ord, "ueq" => Ueq, "ugt" => Ugt, "uge" => Uge, "ult" => Ult, "ule" => Ule, "une" => Une, "uno" => Uno, "true" => True, _ => self.die("fpred") };
                let ty = self.ty(); let a = self.opd(ty); self.exp(","); let b = self.opd(ty);
                Some(Ins::FCmp { dst: d, p, ty, a, b })
            }
            "trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "inttoptr" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "fptrunc" | "fpext" | "addrspacecast" | "ptrtoaddr" => {
                self.fmf();
                let c = match op { "trunc" => Cast::Trunc, "zext" => Cast::ZExt, "sext" => Cast::SExt, "bitcast" | "addrspacecast" => Cast::Bit, "ptrtoint" | "inttoptr" | "ptrtoaddr" => Cast::PtrInt, "fptoui" => Cast::FPToUI, "fptosi" => Cast::FPToSI, "uitofp" => Cast::UIToFP, "sitofp" => Cast::SIToFP, "fptrunc" => Cast::FPTrunc, _ => Cast::FPExt };
                let from = self.ty(); let a = self.opd(from); self.exp("to"); let to = self.ty();
                Some(Ins::Cast { dst: d, op: c, from, to, a })
            }
            "select" => { self.fmf(); let cty = self.ty(); let c = self.opd(cty); self.exp(","); let ty = self.ty(); let a = self.opd(ty); self.exp(","); let _ = self.ty(); let b = self.opd(ty); Some(Ins::Select { dst: d, cty, ty, c, a, b }) }
            "freeze" => { let ty = self.ty(); let a = self.opd(ty); Some(Ins::Copy { dst: d, a }) }
            "fneg" => { self.fmf(); let ty = self.ty(); let a = self.opd(ty); Some(Ins::FNeg { dst: d, ty, a }) }
            "extractvalue" => { let ty = self.ty(); let a = self.opd(ty); let mut idx = vec![]; while self.peek() == b',' { let sv = self.i; self.i += 1; if self.peek() == b'!' { self.i = sv; break; } idx.push(self.num() as u32); } Some(Ins::ExtractV { dst: d, a, idx }) }
            "insertvalue" => { let ty = self.ty(); let a = self.opd(ty); self.exp(","); let vt = self.ty(); let v = self.opd(vt); let mut idx = vec![]; while self.peek() == b',' { let sv = self.i; self.i += 1; if self.peek() == b'!' { self.i = sv; break; } idx.push(self.num() as u32); } Some(Ins::InsertV { dst: d, ty, a, v, idx }) }
            "extractelement" => { let ty = self.ty(); let a = self.opd(ty); self.exp(","); let it = self.ty(); let i = self.opd(it); Some(Ins::ExtractE { dst: d, ty, a, i }) }
            "insertelement" => { let ty = self.ty(); let a = self.opd(ty); self.exp(","); let vt = self.ty(); let v = self.opd(vt); self.exp(","); let it = self.ty(); let i = self.opd(it); Some(Ins::InsertE { dst: d, ty, a, v, i }) }
            "shufflevector" => {
                let ty = self.ty(); let a = self.opd(ty); self.exp(","); let _ = self.ty(); let b = self.opd(ty); self.exp(",");
                let mt = self.ty();
                let K::Agg(ks) = self.konst(mt) else { self.die("mask") };
                Some(Ins::Shuffle { dst: d, ty, a, b, m: ks.iter().map(|k| if let K::I(v) = k { *v as u32 as i32 } else { 0 }).collect() })
            }
            "phi" => {
                self.fmf();
                let ty = self.ty();
                let mut v = vec![];
                loop {
                    self.exp("["); let o = self.opd(ty); self.exp(","); self.exp("%");
                    let s = self.i;
                    if self.t[self.i] == b'"' { self.i += 1; while self.t[self.i] != b'"' { self.i += 1; } self.i += 1; } else { self.word(); }
                    v.push((o, self.t[s..self.i].to_vec()));
                    self.exp("]");
                    let sv = self.i;
                    if !self.eat(",") { break; }
                    if self.peek() != b'[' { self.i = sv; break; }
                }
                phis.push((cur, d, v));
                None
            }
            "br" => {
                if self.peek() == b'l' { return Some(Ins::Br(self.edge(targets))); }
                let t = self.ty(); let c = self.opd(t); self.exp(","); let a = self.edge(targets); self.exp(","); let b = self.edge(targets);
                Some(Ins::CondBr(c, a, b))
            }
            "switch" => {
                let t = self.ty(); let v = self.opd(t); self.exp(","); let def = self.edge(targets); self.exp("[");
                let mut cases = vec![];
                loop { self.wsn(); if self.eat("]") { break; } let ct = self.ty(); let k = match self.konst(ct) { K::I(v) => v, K::W(v) => v as u64, _ => 0 }; self.exp(","); cases.push((k, self.edge(targets))); }
                let w = self.width(t);
                Some(Ins::Switch { w, v, def, cases, map: None })
            }
            "ret" => { let t = self.ty(); if matches!(self.m.types.borrow().t[t as usize], Ty::Void) { return Some(Ins::Ret(None)); } let o = self.opd(t); Some(Ins::Ret(Some(o))) }
            "unreachable" => Some(Ins::Unreachable),
            "resume" => Some(Ins::Unreachable),
            "landingpad" => { let _ = self.ty(); loop { let sv = self.i; self.eol(); let sv2 = self.i; self.ws(); let w = self.word(); if matches!(w, "cleanup" | "catch" | "filter") { continue; } let _ = sv; self.i = sv2 - 1; break; } Some(Ins::Nop) }
            "cleanup" | "catch" | "filter" => None,
            "fence" => None,
            "tail" | "musttail" | "notail" | "call" | "invoke" => {
                if matches!(op, "tail" | "musttail" | "notail") { self.exp("call"); }
                self.fmf();
                loop { let sv = self.i; match self.word() { "fastcc" | "ccc" | "coldcc" | "tailcc" | "preserve_mostcc" | "preserve_nonecc" => {} "cc" => { self.num(); } _ => { self.i = sv; break; } } }
                self.attrs();
                let rty = self.ty();
                // optional explicit function type
                if self.peek() == b'(' { self.skip_parens(); }
                let callee = match self.peek() {
                    b'@' => Callee::F(self.symref()),
                    b'%' => Callee::Ind(Opd::Reg(self.local())),
                    _ => {
                        if self.eatw("asm") {
                            while self.peek() != b'"' { self.word(); }
                            let s = self.i + 1; self.i += 1; while self.t[self.i] != b'"' { self.i += 1; }
                            let a = String::from_utf8_lossy(&self.t[s..self.i]).into_owned();
                            self.i += 1; self.exp(","); self.ws(); self.i += 1; while self.t[self.i] != b'"' { self.i += 1; } self.i += 1;
                            Callee::Asm(a)
                        } else { let pt = self.m.types.borrow_mut().get(Ty::Ptr); Callee::Ind(self.opd(pt)) }
                    }
                };
                self.exp("(");
                let mut args = vec![];
                if self.peek() != b')' { loop { let t = self.ty(); self.attrs(); let o = self.opd(t); args.push((t, o)); if !self.eat(",") { break; } } }
                self.exp(")");
                let isvoid = matches!(self.m.types.borrow().t[rty as usize], Ty::Void);
                let call = Ins::Call { dst: if isvoid { None } else { dst }, callee, rty, args };
                if op == "invoke" {
                    // "to label %x unwind label %y" may be on the next line
                    loop { let sv = self.i; self.wsn(); let w = self.word(); if w == "to" { break; } if w.is_empty() { self.i = sv; self.wsn(); if self.t[self.i] == b'[' { while self.t[self.i] != b']' { self.i += 1; } } self.i += 1; } }
                    let e = self.edge(targets); self.wsn(); self.exp("unwind"); let _ = self.edge(targets);
                    self.pending = Some(Ins::Br(e));
                }
                Some(call)
            }
            "atomicrmw" => {
                self.eatw("volatile");
                let o = self.word().to_string();
                let pt = self.ty(); let p = self.opd(pt); self.exp(","); let ty = self.ty(); let v = self.opd(ty);
                Some(Ins::Rmw { dst: d, op: o, ty, p, v })
            }
            "cmpxchg" => {
                self.eatw("weak"); self.eatw("volatile");
                let pt = self.ty(); let p = self.opd(pt); self.exp(","); let ty = self.ty(); let c = self.opd(ty); self.exp(","); let _ = self.ty(); let n = self.opd(ty);
                Some(Ins::CmpX { dst: d, ty, p, c, n })
            }
            _ => self.die(&format!("instruction {op}")),
        }
    }
}
