//! The symbolic interpreter.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::solve::*;
use crate::z3::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;

#[derive(Clone)]
pub enum Val { I(u64), S(Ex), W(Rc<u128>), A(Rc<Vec<Val>>) }

pub enum Stop { Split(Ex), Conc(Ex), Choose(u64), Done, Kill, Unsup(String), Panic(String) }
pub type R<T> = Result<T, Stop>;

#[derive(Clone)]
pub struct Frame { pub f: *const Func, pub blk: u32, pub ip: u32, pub regs: Vec<Val>, pub dst: u32, pub stack: Option<Rc<Obj>> }
#[derive(Clone, Copy)]
pub enum In { Var(u32), Const(u64) }

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub heap: Heap,
    pub vars: Vec<Option<Rc<VarState>>>,
    pub multi: Vec<Ex>,
    pub multivars: VarSet,
    pub facts: Rc<HashMap<u32, bool>>,
    pub known: Rc<HashMap<u32, u64>>,
    pub model: Rc<Model>,
    pub trace: Vec<In>,
    pub nvar: u32,
    pub chosen: Option<u64>,
    pub kf: u32,
    pub steps: u64,
    pub errno: u32,
    pub tls: HashMap<u64, u64>,
    pub nsym: u32,
    pub out: Rc<Vec<String>>,
    pub files: Rc<BTreeMap<String, Rc<Obj>>>,
    pub fds: Rc<Vec<Option<(String, usize)>>>,
}
pub const STK: u32 = 0x4000_0000;

#[derive(Clone)]
pub enum Kind { Fn(*const Func), Bi(u16), Panic(String), Unknown }

#[derive(Clone, Debug)]
pub struct Violation { pub kind: String, pub msg: String, pub kf: u32, pub inputs: Vec<(u32, u64)>, pub stack: Vec<String>, pub harness: String }

pub struct Mach {
    pub m: Module,
    pub solver: Solver,
    pub claimed: HashSet<(u64, u64)>,
    pub pending: HashMap<u64, (Vec<Ex>, Vec<Ex>)>,
    pub st_cert: u64,
    pub kinds: Vec<Option<Kind>>,
    pub nsyms: u32,
    pub globals: HashMap<u32, Rc<Obj>>,
    pub work: Vec<State>,
    pub harness: String,
    pub paths: u64, pub killed: u64, pub instrs: u64, pub forks: u64, pub asserts: u64, pub asserts_sym: u64, pub asserts_solver: u64, pub dropped: u64,
    pub reach: BTreeMap<u32, u64>,
    pub violations: Vec<Violation>,
    pub vcount: BTreeMap<String, u64>,
    pub incompletes: BTreeMap<String, u64>,
    pub called: BTreeSet<u32>,
    pub samples: Vec<String>,
    pub step_limit: u64,
    pub conc_cap: usize,
    pub trace_calls: bool,
    pub forksites: Option<HashMap<String, u64>>,
    pub maxvars: u32,
}

fn cty_bits(m: &Module, t: TyId) -> u32 { match m.types.borrow().t[t as usize] { Ty::Int(w) => w, Ty::Ptr | Ty::F64 => 64, Ty::F32 => 32, _ => 0 } }

pub fn k2v(k: &K) -> Val { match k { K::I(v) => Val::I(*v), K::W(v) => Val::W(Rc::new(*v)), K::Agg(v) => Val::A(Rc::new(v.iter().map(k2v).collect())) } }
pub fn to_ex(v: &Val, w: u32) -> Ex { match v { Val::I(x) => konst(w, *x as u128), Val::S(e) => e.clone(), Val::W(x) => konst(w, **x), Val::A(_) => panic!("aggregate used as scalar") } }
pub fn from_ex(e: Ex) -> Val { if let Some(c) = e.c() { if e.w > 64 { Val::W(Rc::new(c)) } else { Val::I(c as u64) } } else { Val::S(e) } }
#[inline]
fn sx(v: u64, w: u32) -> i64 { if w >= 64 { v as i64 } else { ((v << (64 - w)) as i64) >> (64 - w) } }
fn unsup<T>(s: impl Into<String>) -> R<T> { Err(Stop::Unsup(s.into())) }

impl State {
    #[inline]
    pub fn obj(&self, id: u32) -> Option<&Obj> {
        if id >= STK { return self.frames.get((id - STK) as usize)?.stack.as_deref(); }
        self.heap.get(id).map(|r| &**r)
    }
    #[inline]
    pub fn obj_mut(&mut self, id: u32) -> Option<&mut Obj> {
        if id >= STK { return self.frames.get_mut((id - STK) as usize)?.stack.as_mut().map(Rc::make_mut); }
        self.heap.get_mut(id)
    }
    pub fn stack_names(&self, n: usize) -> Vec<String> {
        self.frames.iter().rev().take(n).map(|f| crate::demangle(&unsafe { &*f.f }.name)).collect()
    }
}

impl Mach {
    pub fn incomplete(&mut self, s: &str) { *self.incompletes.entry(s.to_string()).or_insert(0) += 1; }

    pub fn new_state(&mut self) -> State {
        let next = self.nsyms + 2;
        let mut s = State { frames: vec![], heap: Heap { pages: vec![], next }, vars: vec![], multi: vec![], multivars: VarSet::default(), facts: Default::default(), known: Default::default(), model: Default::default(), trace: vec![], nvar: 0, chosen: None, kf: 0, steps: 0, errno: 0, tls: HashMap::new(), nsym: 0, out: Default::default(), files: Default::default(), fds: Default::default() };
        s.errno = s.heap.alloc(16);
        s
    }
    fn materialize(&mut self, st: &mut State, id: u32) -> bool {
        if id == 0 || id > self.nsyms { return false; }
        if let Some(o) = self.globals.get(&id) { st.heap.put(id, Some(o.clone())); return true; }
        let sym = self.m.syms.borrow()[id as usize - 1].clone();
        let o = match sym {
            Sym::Global { pos, constant, ext, ty, .. } => {
                let n = self.m.types.borrow().size(ty) as usize;
                let mut o = Obj::new(n.max(1));
                o.data.truncate(n);
                if !ext { let mut p = P::new(&self.m, pos); let k = p.konst(ty); write_k(&self.m, &mut o.data, 0, ty, &k); o.ro = constant; }
                o
            }
            Sym::Func { .. } | Sym::Decl { .. } => return false,
            _ => Obj::new(64),
        };
        let o = Rc::new(o);
        self.globals.insert(id, o.clone());
        st.heap.put(id, Some(o));
        true
    }
    fn bad(&self, st: &State, what: &str, addr: u64, n: usize) -> Stop {
        Stop::Panic(format!("memory: {what} at {addr:#x} size {n} in {:?}", st.stack_names(3)))
    }
    /// Object and offset of an access, bounds-checked.
    #[inline]
    pub fn at(&mut self, st: &mut State, addr: u64, n: usize) -> R<(u32, usize)> {
        let (id, off) = ((addr >> 32) as u32, addr as u32 as usize);
        let len = match st.obj(id) { Some(o) => o.data.len(), None => { if id < STK && self.materialize(st, id) { st.obj(id).unwrap().data.len() } else { return Err(self.bad(st, "access outside any object", addr, n)); } } };
        if off + n > len { return Err(self.bad(st, "access out of bounds", addr, n)); }
        Ok((id, off))
    }
    pub fn load_n(&mut self, st: &mut State, addr: u64, n: usize) -> R<Val> {
        let (id, off) = self.at(st, addr, n)?;
        let o = st.obj(id).unwrap();
        if o.sym.is_none() || !o.has_sym(off, n) {
            if n <= 8 { return Ok(Val::I(o.read_u(off, n))); }
            if n == 16 { let lo = o.read_u(off, 8) as u128; let hi = o.read_u(off + 8, 8) as u128; return Ok(Val::W(Rc::new(hi << 64 | lo))); }
        }
        if n > 16 { return unsup("wide load"); }
        let e = o.read_ex(off, n);
        Ok(self.simp(st, e))
    }
    pub fn store_n(&mut self, st: &mut State, addr: u64, n: usize, v: &Val) -> R<()> {
        let (id, off) = self.at(st, addr, n)?;
        let o = st.obj_mut(id).unwrap();
        if o.ro { return Err(self.bad(st, "write to constant", addr, n)); }
        match v {
            Val::I(x) if n <= 8 => o.write_u(off, n, *x),
            Val::I(x) => { o.write_u(off, 8, *x); o.write_u(off + 8, n - 8, 0); }
            Val::W(x) => { if n >= 8 { o.write_u(off, 8, **x as u64); o.write_u(off + 8, n - 8, (**x >> 64) as u64); } else { o.write_u(off, n, **x as u64) } }
            Val::S(e) => { let e = if (e.w as usize) < n * 8 { mk(Op::ZExt, n as u32 * 8, vec![e.clone()]) } else { e.clone() }; o.write_ex(off, n, &e) }
            Val::A(_) => return unsup("aggregate store"),
        }
        Ok(())
    }
    pub fn load(&mut self, st: &mut State, addr: u64, ty: TyId) -> R<Val> {
        let t = self.m.types.borrow().t[ty as usize].clone();
        match t {
            Ty::Int(w) => {
                let n = (w as usize + 7) / 8;
                let v = self.load_n(st, addr, n)?;
                if w % 8 == 0 { return Ok(v); }
                Ok(match v { Val::I(x) => Val::I(x & mask64(w)), Val::S(e) => self.simp(st, extract(&e, 0, w)), Val::W(x) => Val::W(Rc::new(*x & mask(w))), v => v })
            }
            Ty::Ptr | Ty::F64 => self.load_n(st, addr, 8),
            Ty::F32 => self.load_n(st, addr, 4),
            Ty::Vec(n, e) => {
                let bits = matches!(self.m.types.borrow().t[e as usize], Ty::Int(1));
                if bits {
                    let nb = (n as usize + 7) / 8;
                    if nb > 8 { return unsup("load of a wide bit vector"); }
                    let x = self.load_n(st, addr, nb)?;
                    let x = to_ex(&x, nb as u32 * 8);
                    return Ok(Val::A(Rc::new((0..n).map(|i| from_ex(extract(&x, i, 1))).collect())));
                }
                let s = self.m.types.borrow().size(e);
                let mut v = Vec::with_capacity(n as usize);
                for i in 0..n as u64 { v.push(self.load(st, addr + i * s, e)?); }
                Ok(Val::A(Rc::new(v)))
            }
            Ty::Arr(n, _) => { let mut v = vec![]; for i in 0..n { let (o, t) = self.m.types.borrow().field(ty, i); v.push(self.load(st, addr + o, t)?); } Ok(Val::A(Rc::new(v))) }
            Ty::Struct(f, _) => { let mut v = vec![]; for i in 0..f.len() as u64 { let (o, t) = self.m.types.borrow().field(ty, i); v.push(self.load(st, addr + o, t)?); } Ok(Val::A(Rc::new(v))) }
            _ => unsup("load type"),
        }
    }
    pub fn store(&mut self, st: &mut State, addr: u64, ty: TyId, v: &Val) -> R<()> {
        let t = self.m.types.borrow().t[ty as usize].clone();
        match t {
            Ty::Int(w) => self.store_n(st, addr, (w as usize + 7) / 8, v),
            Ty::Ptr | Ty::F64 => self.store_n(st, addr, 8, v),
            Ty::F32 => self.store_n(st, addr, 4, v),
            Ty::Vec(..) | Ty::Arr(..) | Ty::Struct(..) => {
                if let Ty::Vec(n, e) = t { let bits = matches!(self.m.types.borrow().t[e as usize], Ty::Int(1)); if bits {
                    let nb = (n as usize + 7) / 8;
                    if nb > 8 { return unsup("store of a wide bit vector"); }
                    let Val::A(a) = v else { return self.store_n(st, addr, nb, &Val::I(0)) };
                    let mut e = konst(nb as u32 * 8, 0);
                    for (i, b) in a.iter().enumerate() {
                        let b = to_ex(b, 1);
                        let w = nb as u32 * 8;
                        let b = match b.c() { Some(k) => konst(w, k << i), None => mk(Op::Shl, w, vec![mk(Op::ZExt, w, vec![b]), konst(w, i as u128)]) };
                        e = match (e.c(), b.c()) { (Some(x), Some(y)) => konst(w, x | y), _ => or(&e, &b) };
                    }
                    let e = self.simp(st, e);
                    return self.store_n(st, addr, nb, &e);
                } }
                let Val::A(a) = v else { let z = self.zero_of(ty); return self.store(st, addr, ty, &z) };
                for (i, x) in a.iter().enumerate() { let (o, t) = self.m.types.borrow().field(ty, i as u64); self.store(st, addr + o, t, x)?; }
                Ok(())
            }
            _ => unsup("store type"),
        }
    }
    pub fn zero_of(&self, ty: TyId) -> Val {
        let t = self.m.types.borrow().t[ty as usize].clone();
        match t {
            Ty::Int(w) if w > 64 => Val::W(Rc::new(0)),
            Ty::Vec(n, e) => Val::A(Rc::new(vec![self.zero_of(e); n as usize])),
            Ty::Arr(n, e) => Val::A(Rc::new(vec![self.zero_of(e); n as usize])),
            Ty::Struct(f, _) => Val::A(Rc::new(f.iter().map(|x| self.zero_of(*x)).collect())),
            _ => Val::I(0),
        }
    }
    /// Load through a symbolic address.
    fn load_sym(&mut self, st: &mut State, e: &Ex, ty: TyId) -> R<Val> {
        let n = match self.m.types.borrow().t[ty as usize] { Ty::Int(w) if w <= 64 && w % 8 == 0 => w as usize / 8, Ty::Ptr | Ty::F64 => 8, Ty::F32 => 4, _ => 0 };
        if n == 0 || st.known.contains_key(&e.id) { let a = self.conc(st, e)?; return self.load(st, a, ty); }
        let mut addrs: Vec<u64> = vec![];
        if let (Some(v), true) = (e.single8(), true) {
            if let Some(t) = table_of(e) {
                let d = st.vs(v).dom;
                for i in 0..256 { if in_dom(&d, i) { addrs.push(t[i]); } }
                addrs.sort_unstable(); addrs.dedup();
                let mut conc: HashMap<u64, u64> = HashMap::new();
                let mut ok = true;
                for a in &addrs { match self.load_n(st, *a, n) { Ok(Val::I(x)) => { conc.insert(*a, x); } _ => { ok = false; break; } } }
                if ok {
                    let mut vals = [0u64; 256];
                    let dflt = conc[&addrs[0]];
                    for i in 0..256 { vals[i] = if in_dom(&d, i) { conc[&t[i]] } else { dflt }; }
                    let ve = var_ex(v);
                    return Ok(from_ex(table(&ve, n as u32 * 8, vals)));
                }
            }
        }
        if addrs.is_empty() {
            let (lo, hi) = self.rng(st, e, 12);
            if hi - lo > 2048 || (lo >> 32) != (hi >> 32) { let a = self.conc(st, e)?; return self.load(st, a, ty); }
            let mut a = lo as u64;
            while a as u128 <= hi { addrs.push(a); a += n as u64; }
        }
        if addrs.len() > 300 { let a = self.conc(st, e)?; return self.load(st, a, ty); }
        let w = n as u32 * 8;
        let mut r: Option<Ex> = None;
        for a in addrs.iter().rev() {
            let Ok(v) = self.load_n(st, *a, n) else { let a = self.conc(st, e)?; return self.load(st, a, ty) };
            let x = to_ex(&v, w);
            r = Some(match r { None => x, Some(r) => ite(&eq(e, &konst(64, *a as u128)), &x, &r) });
        }
        Ok(self.simp(st, r.unwrap()))
    }
    /// Turn an expression into a value, using the domain of its variable.
    pub fn simp(&mut self, st: &mut State, e: Ex) -> Val {
        if e.op == Op::Const { return from_ex(e); }
        if let Some(k) = st.known.get(&e.id) { return Val::I(*k); }
        if e.w == 1 { if let Some(b) = self.truth3(st, &e) { return Val::I(b as u64); } return Val::S(e); }
        if e.w <= 64 && e.op != Op::Var { if let Some(v) = e.single8() {
            let dom = &st.vs(v).dom;
            if let Some(t) = table_of(&e) {
                let mut it = (0..256).filter(|i| in_dom(dom, *i));
                if let Some(f) = it.next() { let x = t[f]; if it.all(|i| t[i] == x) { let c = eq(&e, &konst(e.w, x as u128)); if c.c().is_none() { self.truth3(st, &c); } return Val::I(x); } }
            }
        } }
        Val::S(e)
    }
    pub fn cv(&mut self, st: &mut State, v: &Val) -> R<u64> { match v { Val::I(x) => Ok(*x), Val::S(e) => self.conc(st, e), Val::W(x) => Ok(**x as u64), Val::A(_) => unsup("aggregate as integer") } }

    pub fn bin(&mut self, st: &mut State, op: Bin, w: u32, a: &Val, b: &Val) -> R<Val> {
        if let (Val::I(x), Val::I(y)) = (a, b) { if w <= 64 {
            let (x, y) = (*x, *y);
            let m = mask64(w);
            let r = match op {
                Bin::Add => x.wrapping_add(y), Bin::Sub => x.wrapping_sub(y), Bin::Mul => x.wrapping_mul(y),
                Bin::And => x & y, Bin::Or => x | y, Bin::Xor => x ^ y,
                Bin::Shl => if y >= w as u64 { 0 } else { x << y },
                Bin::LShr => if y >= w as u64 { 0 } else { x >> y },
                Bin::AShr => (sx(x, w) >> y.min(w as u64 - 1)) as u64,
                Bin::UDiv => { if y == 0 { return unsup("udiv by zero"); } x / y }
                Bin::URem => { if y == 0 { return unsup("urem by zero"); } x % y }
                Bin::SDiv => { if y == 0 { return unsup("sdiv by zero"); } sx(x, w).wrapping_div(sx(y, w)) as u64 }
                Bin::SRem => { if y == 0 { return unsup("srem by zero"); } sx(x, w).wrapping_rem(sx(y, w)) as u64 }
                Bin::FAdd | Bin::FSub | Bin::FMul | Bin::FDiv | Bin::FRem => {
                    if w == 32 { let (x, y) = (f32::from_bits(x as u32), f32::from_bits(y as u32)); (match op { Bin::FAdd => x + y, Bin::FSub => x - y, Bin::FMul => x * y, Bin::FDiv => x / y, _ => x % y }).to_bits() as u64 }
                    else { let (x, y) = (f64::from_bits(x), f64::from_bits(y)); (match op { Bin::FAdd => x + y, Bin::FSub => x - y, Bin::FMul => x * y, Bin::FDiv => x / y, _ => x % y }).to_bits() }
                }
            };
            return Ok(Val::I(r & m));
        } }
        if let (Val::A(x), Val::A(y)) = (a, b) {
            let (x, y) = (x.clone(), y.clone());
            let mut v = Vec::with_capacity(x.len());
            for i in 0..x.len() { v.push(self.bin(st, op, w, &x[i], &y[i])?); }
            return Ok(Val::A(Rc::new(v)));
        }
        if matches!(op, Bin::FRem) { return unsup("symbolic frem"); }
        let (x, y) = (to_ex(a, w), to_ex(b, w));
        let o = match op {
            Bin::Add => Op::Add, Bin::Sub => Op::Sub, Bin::Mul => Op::Mul, Bin::UDiv => Op::UDiv, Bin::SDiv => Op::SDiv, Bin::URem => Op::URem, Bin::SRem => Op::SRem,
            Bin::And => Op::And, Bin::Or => Op::Or, Bin::Xor => Op::Xor, Bin::Shl => Op::Shl, Bin::LShr => Op::LShr, Bin::AShr => Op::AShr,
            Bin::FAdd => Op::FAdd, Bin::FSub => Op::FSub, Bin::FMul => Op::FMul, Bin::FDiv => Op::FDiv, Bin::FRem => unreachable!(),
        };
        let e = mk(o, w, vec![x, y]);
        Ok(self.simp(st, e))
    }
    pub fn icmp(&mut self, st: &mut State, p: Pred, w: u32, a: &Val, b: &Val) -> R<Val> {
        if let (Val::I(x), Val::I(y)) = (a, b) {
            let (x, y) = (*x, *y);
            return Ok(Val::I(match p {
                Pred::Eq => x == y, Pred::Ne => x != y, Pred::Ugt => x > y, Pred::Uge => x >= y, Pred::Ult => x < y, Pred::Ule => x <= y,
                Pred::Sgt => sx(x, w) > sx(y, w), Pred::Sge => sx(x, w) >= sx(y, w), Pred::Slt => sx(x, w) < sx(y, w), Pred::Sle => sx(x, w) <= sx(y, w),
            } as u64));
        }
        if let (Val::A(x), Val::A(y)) = (a, b) {
            let (x, y) = (x.clone(), y.clone());
            let mut v = Vec::with_capacity(x.len());
            for i in 0..x.len() { v.push(self.icmp(st, p, w, &x[i], &y[i])?); }
            return Ok(Val::A(Rc::new(v)));
        }
        let (x, y) = (to_ex(a, w), to_ex(b, w));
        let e = match p {
            Pred::Eq => eq(&x, &y), Pred::Ne => not(&eq(&x, &y)),
            Pred::Ugt => mk(Op::Ult, 1, vec![y, x]), Pred::Uge => mk(Op::Ule, 1, vec![y, x]), Pred::Ult => mk(Op::Ult, 1, vec![x, y]), Pred::Ule => mk(Op::Ule, 1, vec![x, y]),
            Pred::Sgt => mk(Op::Slt, 1, vec![y, x]), Pred::Sge => mk(Op::Sle, 1, vec![y, x]), Pred::Slt => mk(Op::Slt, 1, vec![x, y]), Pred::Sle => mk(Op::Sle, 1, vec![x, y]),
        };
        Ok(self.simp(st, e))
    }
    fn fcmp(&mut self, st: &mut State, p: FPred, w: u32, a: &Val, b: &Val) -> R<Val> {
        if let (Val::A(x), Val::A(y)) = (a, b) {
            let (x, y) = (x.clone(), y.clone());
            let mut v = vec![];
            for i in 0..x.len() { v.push(self.fcmp(st, p, w, &x[i], &y[i])?); }
            return Ok(Val::A(Rc::new(v)));
        }
        let (x, y) = (to_ex(a, w), to_ex(b, w));
        let lt = |a: &Ex, b: &Ex| mk(Op::FLt, 1, vec![a.clone(), b.clone()]);
        let le = |a: &Ex, b: &Ex| mk(Op::FLe, 1, vec![a.clone(), b.clone()]);
        let fe = mk(Op::FEq, 1, vec![x.clone(), y.clone()]);
        let un = || mk(Op::FUno, 1, vec![x.clone(), y.clone()]);
        let e = match p {
            FPred::False => konst(1, 0), FPred::True => konst(1, 1),
            FPred::Oeq => fe, FPred::Une => not(&fe), FPred::One => and(&not(&fe), &not(&un())), FPred::Ueq => or(&fe, &un()),
            FPred::Olt => lt(&x, &y), FPred::Ole => le(&x, &y), FPred::Ogt => lt(&y, &x), FPred::Oge => le(&y, &x),
            FPred::Ult => not(&le(&y, &x)), FPred::Ule => not(&lt(&y, &x)), FPred::Ugt => not(&le(&x, &y)), FPred::Uge => not(&lt(&x, &y)),
            FPred::Ord => not(&un()), FPred::Uno => un(),
        };
        Ok(self.simp(st, e))
    }
    fn scalar_bits(&self, t: TyId) -> (u32, u32) {
        // (lanes, width); lanes 0 = scalar
        let tt = self.m.types.borrow();
        match tt.t[t as usize] { Ty::Vec(n, e) => (n, match tt.t[e as usize] { Ty::Int(w) => w, Ty::F32 => 32, _ => 64 }), Ty::Int(w) => (0, w), Ty::F32 => (0, 32), _ => (0, 64) }
    }
    fn cast(&mut self, st: &mut State, op: Cast, from: TyId, to: TyId, a: &Val) -> R<Val> {
        let ((fl, fw), (tl, tw)) = (self.scalar_bits(from), self.scalar_bits(to));
        if op == Cast::Bit {
            if fl == 0 && tl == 0 { return Ok(a.clone()); }
            if fl == tl && fw == tw { return Ok(a.clone()); }
            // concatenate lanes (little endian) and split again
            let whole = match a { Val::A(v) => { let mut e = to_ex(&v[v.len() - 1], fw); for x in v[..v.len() - 1].iter().rev() { let x = to_ex(x, fw); e = if e.c().is_some() && x.c().is_some() && e.w + fw <= 128 { konst(e.w + fw, e.k << fw | x.k) } else { concat(&e, &x) }; } e } v => to_ex(v, fw.max(1)) };
            if whole.w > 128 { return unsup("wide bitcast"); }
            if tl == 0 { return Ok(self.simp(st, whole)); }
            let mut v = vec![];
            for i in 0..tl { v.push(from_ex(extract(&whole, i * tw, tw))); }
            return Ok(Val::A(Rc::new(v)));
        }
        if let Val::A(v) = a { let v = v.clone(); let mut r = Vec::with_capacity(v.len()); for x in v.iter() { r.push(self.cast1(st, op, fw, tw, x)?); } return Ok(Val::A(Rc::new(r))); }
        self.cast1(st, op, fw, tw, a)
    }
    fn cast1(&mut self, st: &mut State, op: Cast, fw: u32, tw: u32, a: &Val) -> R<Val> {
        if let Val::I(x) = a { let x = *x;
            match op {
                Cast::Trunc => return Ok(Val::I(x & mask64(tw))),
                Cast::ZExt | Cast::PtrInt => return Ok(if tw > 64 { Val::W(Rc::new(x as u128)) } else { Val::I(x) }),
                Cast::SExt => return Ok(if tw > 64 { Val::W(Rc::new((sx(x, fw) as i128 as u128) & mask(tw))) } else { Val::I(sx(x, fw) as u64 & mask64(tw)) }),
                _ => {}
            }
        }
        let e = to_ex(a, fw);
        let r = match op {
            Cast::Trunc => extract(&e, 0, tw),
            Cast::ZExt | Cast::PtrInt => if tw < fw { extract(&e, 0, tw) } else { mk(Op::ZExt, tw, vec![e]) },
            Cast::SExt => mk(Op::SExt, tw, vec![e]),
            Cast::FPToUI => mk(Op::FPToUI, tw, vec![e]), Cast::FPToSI => mk(Op::FPToSI, tw, vec![e]),
            Cast::UIToFP => mk(Op::UIToFP, tw, vec![e]), Cast::SIToFP => mk(Op::SIToFP, tw, vec![e]),
            Cast::FPTrunc => mk(Op::FPTrunc, tw, vec![e]), Cast::FPExt => mk(Op::FPExt, tw, vec![e]),
            Cast::Bit => e,
        };
        Ok(self.simp(st, r))
    }
    pub fn select(&mut self, st: &mut State, ty: TyId, c: &Val, a: &Val, b: &Val) -> R<Val> {
        match c {
            Val::I(x) => Ok(if x & 1 == 1 { a.clone() } else { b.clone() }),
            Val::S(e) => {
                if let Some(t) = self.truth3(st, e) { return Ok(if t { a.clone() } else { b.clone() }); }
                let t = self.m.types.borrow().t[ty as usize].clone();
                match t {
                    Ty::Int(w) => { let r = ite(e, &to_ex(a, w), &to_ex(b, w)); Ok(self.simp(st, r)) }
                    Ty::F64 => Ok(from_ex(ite(e, &to_ex(a, 64), &to_ex(b, 64)))),
                    Ty::F32 => Ok(from_ex(ite(e, &to_ex(a, 32), &to_ex(b, 32)))),
                    _ => { let e = e.clone(); Ok(if self.truth(st, &e)? { a.clone() } else { b.clone() }) }
                }
            }
            Val::A(cs) => {
                let (Val::A(x), Val::A(y)) = (a, b) else { return unsup("vector select") };
                let et = match self.m.types.borrow().t[ty as usize] { Ty::Vec(_, e) => e, _ => ty };
                let (cs, x, y) = (cs.clone(), x.clone(), y.clone());
                let mut v = vec![];
                for i in 0..cs.len() { v.push(self.select(st, et, &cs[i], &x[i], &y[i])?); }
                Ok(Val::A(Rc::new(v)))
            }
            _ => unsup("select"),
        }
    }

    pub fn kind(&mut self, id: u32) -> Kind {
        if let Some(Some(k)) = self.kinds.get(id as usize) { return k.clone(); }
        let sym = self.m.syms.borrow()[id as usize].clone();
        let k = match &sym {
            Sym::Alias { to, .. } => self.kind(*to),
            Sym::Func { name, noreturn, .. } => {
                if let Some(b) = crate::builtins::override_of(name) { Kind::Bi(b) }
                else if *noreturn { Kind::Panic(name.clone()) }
                else { let f = self.m.func(id); self.called.insert(id); Kind::Fn(Rc::as_ptr(&f)) }
            }
            s => match crate::builtins::lookup(s.name()) { Some(b) => Kind::Bi(b), None => Kind::Unknown },
        };
        if self.kinds.len() <= id as usize { self.kinds.resize(id as usize + 1, None); }
        self.kinds[id as usize] = Some(k.clone());
        k
    }
    pub fn push_call(&mut self, st: &mut State, f: *const Func, args: Vec<Val>, dst: u32) -> R<()> {
        if st.frames.len() > 3000 { return Err(Stop::Panic("stack overflow (call depth over 3000)".into())); }
        let ff = unsafe { &*f };
        let mut regs = args;
        regs.resize(ff.nregs as usize, Val::I(0));
        let stack = if ff.frame > 0 { Some(Rc::new(Obj::new(ff.frame as usize))) } else { None };
        st.frames.push(Frame { f, blk: 0, ip: 0, regs, dst, stack });
        Ok(())
    }
    fn decode_location(&mut self, st: &mut State, args: &[Val]) -> String {
        for a in args.iter().rev() {
            let Val::I(p) = a else { continue };
            if self.at(st, *p, 24).is_err() { continue; }
            let id = (*p >> 32) as u32;
            let o = st.obj(id).unwrap();
            if !o.ro || o.data.len() != 24 { continue; }
            let (fp, fl, line, col) = (o.read_u(0, 8), o.read_u(8, 8) as usize, o.read_u(16, 4), o.read_u(20, 4));
            if fl > 4096 { continue; }
            if let Ok((fid, off)) = self.at(st, fp, fl) {
                let d = &st.obj(fid).unwrap().data[off..off + fl];
                let s = String::from_utf8_lossy(d).into_owned();
                return format!("{}:{}:{}", s, line, col);
            }
        }
        String::new()
    }

    /// Execute one instruction.
    fn step(&mut self, st: &mut State) -> R<()> {
        let fi = st.frames.len() - 1;
        let (f, blk, ip) = { let fr = &st.frames[fi]; (unsafe { &*fr.f }, fr.blk, fr.ip) };
        let ins = &f.blocks[blk as usize][ip as usize];
        macro_rules! v { ($o:expr) => { match $o { Opd::Reg(r) => st.frames[fi].regs[*r as usize].clone(), Opd::Imm(x) => Val::I(*x), Opd::K(k) => f.kv.get_or_init(|| f.consts.iter().map(k2v).collect())[*k as usize].clone(), Opd::Undef => Val::I(0) } } }
        macro_rules! set { ($d:expr, $v:expr) => {{ let x = $v; let fr = &mut st.frames[fi]; fr.regs[$d as usize] = x; fr.ip += 1; }} }
        match ins {
            Ins::Alloca { dst, off } => { let a = (((STK + fi as u32) as u64) << 32) | *off as u64; set!(*dst, Val::I(a)); }
            Ins::Load { dst, ty, p } => {
                let r = match v!(p) { Val::I(a) => self.load(st, a, *ty)?, Val::S(e) => self.load_sym(st, &e, *ty)?, _ => return unsup("load address") };
                set!(*dst, r);
            }
            Ins::Store { ty, v, p } => {
                let a = match v!(p) { Val::I(a) => a, Val::S(e) => self.conc(st, &e)?, _ => return unsup("store address") };
                let x = v!(v);
                self.store(st, a, *ty, &x)?;
                st.frames[fi].ip += 1;
            }
            Ins::Gep { dst, p, off, idx } => {
                let base = v!(p);
                let r = match base {
                    Val::I(b) => {
                        let mut a = b.wrapping_add(*off as u64);
                        let mut sy: Option<Ex> = None;
                        for (o, w, s) in idx { match v!(o) { Val::I(x) => a = a.wrapping_add((sx(x, *w).wrapping_mul(*s)) as u64), Val::S(e) => { let e = if e.w < 64 { mk(Op::SExt, 64, vec![e]) } else { e }; let t = mk(Op::Mul, 64, vec![e, konst(64, *s as u64 as u128)]); sy = Some(match sy { None => t, Some(q) => mk(Op::Add, 64, vec![q, t]) }); } _ => return unsup("gep index") } }
                        match sy { None => Val::I(a), Some(e) => { let e = mk(Op::Add, 64, vec![e, konst(64, a as u128)]); self.simp(st, e) } }
                    }
                    Val::S(b) => {
                        let mut e = mk(Op::Add, 64, vec![b, konst(64, *off as u64 as u128)]);
                        for (o, w, s) in idx { let x = to_ex(&v!(o), *w); let x = if x.w < 64 { mk(Op::SExt, 64, vec![x]) } else { x }; let t = mk(Op::Mul, 64, vec![x, konst(64, *s as u64 as u128)]); e = mk(Op::Add, 64, vec![e, t]); }
                        self.simp(st, e)
                    }
                    _ => return unsup("vector gep"),
                };
                set!(*dst, r);
            }
            Ins::Bin { dst, op, ty, w, a, b } => {
                let (x, y) = (v!(a), v!(b));
                let w = if *w == 0 { self.scalar_bits(*ty).1 } else { *w };
                let r = self.bin(st, *op, w, &x, &y)?;
                set!(*dst, r);
            }
            Ins::FNeg { dst, ty, a } => { let w = self.scalar_bits(*ty).1; let x = v!(a); let s = Val::I(1 << (w - 1)); let s = if let Val::A(q) = &x { Val::A(Rc::new(vec![s; q.len()])) } else { s }; let r = self.bin(st, Bin::Xor, w, &x, &s)?; set!(*dst, r); }
            Ins::ICmp { dst, p, ty, w, a, b } => {
                let (x, y) = (v!(a), v!(b));
                let w = if *w == 0 { self.scalar_bits(*ty).1 } else { *w };
                let r = self.icmp(st, *p, w, &x, &y)?;
                set!(*dst, r);
            }
            Ins::FCmp { dst, p, ty, a, b } => { let (x, y) = (v!(a), v!(b)); let w = self.scalar_bits(*ty).1; let r = self.fcmp(st, *p, w, &x, &y)?; set!(*dst, r); }
            Ins::Cast { dst, op, from, to, a } => { let x = v!(a); let r = self.cast(st, *op, *from, *to, &x)?; set!(*dst, r); }
            Ins::Select { dst, ty, c, a, b, .. } => { let (c, x, y) = (v!(c), v!(a), v!(b)); let r = self.select(st, *ty, &c, &x, &y)?; set!(*dst, r); }
            Ins::Copy { dst, a } => { let x = v!(a); set!(*dst, x); }
            Ins::ExtractV { dst, a, idx } => { let mut x = v!(a); for i in idx { x = match &x { Val::A(q) => q[*i as usize].clone(), _ => Val::I(0) }; } set!(*dst, x); }
            Ins::InsertV { dst, ty, a, v, idx } => {
                let mut x = v!(a);
                if !matches!(x, Val::A(_)) { x = self.zero_of(*ty); }
                fn put(x: &mut Val, idx: &[u32], v: Val) { if idx.is_empty() { *x = v; return; } if let Val::A(q) = x { put(&mut Rc::make_mut(q)[idx[0] as usize], &idx[1..], v); } }
                let y = v!(v);
                put(&mut x, idx, y);
                set!(*dst, x);
            }
            Ins::ExtractE { dst, ty, a, i } => { let mut x = v!(a); if !matches!(x, Val::A(_)) { x = self.zero_of(*ty); } let i = self.cv(st, &v!(i))?; let Val::A(q) = x else { return unsup("extractelement") }; set!(*dst, q[i as usize].clone()); }
            Ins::InsertE { dst, ty, a, v, i } => { let mut x = v!(a); if !matches!(x, Val::A(_)) { x = self.zero_of(*ty); } let i = self.cv(st, &v!(i))?; let y = v!(v); if let Val::A(q) = &mut x { Rc::make_mut(q)[i as usize] = y; } set!(*dst, x); }
            Ins::Shuffle { dst, ty, a, b, m } => {
                let (mut x, mut y) = (v!(a), v!(b));
                if !matches!(x, Val::A(_)) { x = self.zero_of(*ty); }
                if !matches!(y, Val::A(_)) { y = self.zero_of(*ty); }
                let (Val::A(x), Val::A(y)) = (x, y) else { return unsup("shuffle") };
                let n = x.len();
                let r: Vec<Val> = m.iter().map(|k| { let k = *k as usize; if k < n { x[k].clone() } else if k < 2 * n { y[k - n].clone() } else { Val::I(0) } }).collect();
                set!(*dst, Val::A(Rc::new(r)));
            }
            Ins::Rmw { dst, op, ty, p, v } => {
                let a = { let x = v!(p); self.cv(st, &x)? };
                let old = self.load(st, a, *ty)?;
                let y = v!(v);
                let w = cty_bits(&self.m, *ty);
                let new = match op.as_str() {
                    "xchg" => y,
                    "add" => self.bin(st, Bin::Add, w, &old, &y)?, "sub" => self.bin(st, Bin::Sub, w, &old, &y)?,
                    "and" => self.bin(st, Bin::And, w, &old, &y)?, "or" => self.bin(st, Bin::Or, w, &old, &y)?, "xor" => self.bin(st, Bin::Xor, w, &old, &y)?,
                    _ => return unsup("atomicrmw"),
                };
                self.store(st, a, *ty, &new)?;
                set!(*dst, old);
            }
            Ins::CmpX { dst, ty, p, c, n } => {
                let a = { let x = v!(p); self.cv(st, &x)? };
                let old = self.load(st, a, *ty)?;
                let w = cty_bits(&self.m, *ty);
                let r = self.icmp(st, Pred::Eq, w, &old, &v!(c))?;
                let ok = match r { Val::I(x) => x != 0, Val::S(e) => self.truth(st, &e)?, _ => false };
                if ok { let x = v!(n); self.store(st, a, *ty, &x)?; }
                set!(*dst, Val::A(Rc::new(vec![old, Val::I(ok as u64)])));
            }
            Ins::Nop => st.frames[fi].ip += 1,
            Ins::Br(e) => self.jump(st, fi, f, e),
            Ins::CondBr(c, a, b) => {
                let t = match v!(c) { Val::I(x) => x & 1 == 1, Val::S(e) => self.truth(st, &e)?, _ => return unsup("condition") };
                self.jump(st, fi, f, if t { a } else { b });
            }
            Ins::Switch { w, v, def, cases, map } => {
                match v!(v) {
                    Val::I(x) => {
                        let e = match map { Some(m) => m.get(&x).map(|i| &cases[*i as usize].1), None => cases.iter().find(|c| c.0 == x).map(|c| &c.1) };
                        self.jump(st, fi, f, e.unwrap_or(def));
                    }
                    Val::S(e) => {
                        // group the cases by target
                        let mut groups: Vec<(u32, Vec<usize>)> = vec![];
                        for (i, c) in cases.iter().enumerate() { match groups.iter_mut().find(|g| g.0 == c.1.to && cases[g.1[0]].1.copies.len() == c.1.copies.len() && c.1.copies.is_empty()) { Some(g) => g.1.push(i), None => groups.push((c.1.to, vec![i])) } }
                        for (_, g) in &groups {
                            let mut cond = konst(1, 0);
                            for i in g { cond = or(&cond, &eq(&e, &konst(*w, cases[*i].0 as u128))); }
                            if self.truth(st, &cond)? { self.jump(st, fi, f, &cases[g[0]].1); return Ok(()); }
                        }
                        self.jump(st, fi, f, def);
                    }
                    _ => return unsup("switch"),
                }
            }
            Ins::Ret(o) => {
                let r = o.as_ref().map(|o| v!(o));
                let fr = st.frames.pop().unwrap();
                if st.frames.is_empty() { return Err(Stop::Done); }
                let c = st.frames.last_mut().unwrap();
                if fr.dst != u32::MAX { if let Some(r) = r { c.regs[fr.dst as usize] = r; } }
                c.ip += 1;
            }
            Ins::Unreachable => return unsup(format!("unreachable executed in {}", crate::demangle(&f.name))),
            Ins::Call { dst, callee, rty, args } => {
                let id = match callee {
                    Callee::F(id) => *id,
                    Callee::Ind(o) => { let x = v!(o); let a = self.cv(st, &x)?; if a >> 32 == 0 || (a >> 32) as u32 > self.nsyms { return unsup("indirect call to non-function"); } (a >> 32) as u32 - 1 }
                    Callee::Asm(s) => {
                        if s.is_empty() { if let Some(d) = dst { let x = match args.first() { Some((_, o)) => v!(o), None => self.zero_of(*rty) }; set!(*d, x); } else { st.frames[fi].ip += 1; } return Ok(()); }
                        if s.contains("cpuid") || s.contains("xgetbv") { if let Some(d) = dst { let z = self.zero_of(*rty); set!(*d, z); } else { st.frames[fi].ip += 1; } return Ok(()); }
                        return unsup(format!("asm {s}"));
                    }
                };
                match self.kind(id) {
                    Kind::Fn(g) => {
                        let mut a: Vec<Val> = Vec::with_capacity(unsafe { (*g).nregs as usize });
                        for (_, o) in args { a.push(v!(o)); }
                        if self.trace_calls { eprintln!("{:w$}{}({})", "", crate::demangle(unsafe { &(*g).name }), a.iter().map(showv).collect::<Vec<_>>().join(", "), w = fi); }
                        self.push_call(st, g, a, dst.unwrap_or(u32::MAX))?;
                    }
                    Kind::Bi(b) => {
                        let a: Vec<Val> = args.iter().map(|(_, o)| v!(o)).collect();
                        let r = self.builtin(st, b, &a, args, *rty)?;
                        let fr = &mut st.frames[fi];
                        if let Some(d) = dst { fr.regs[*d as usize] = r; }
                        fr.ip += 1;
                    }
                    Kind::Panic(n) => {
                        let a: Vec<Val> = args.iter().map(|(_, o)| v!(o)).collect();
                        let loc = self.decode_location(st, &a);
                        return Err(Stop::Panic(format!("{} at {}", crate::demangle(&n), loc)));
                    }
                    Kind::Unknown => return unsup(format!("call to {}", self.m.syms.borrow()[id as usize].name())),
                }
            }
        }
        Ok(())
    }
    #[inline]
    fn jump(&mut self, st: &mut State, fi: usize, f: &Func, e: &Edge) {
        let fr = &mut st.frames[fi];
        let get = |fr: &Frame, o: &Opd| match o { Opd::Reg(r) => fr.regs[*r as usize].clone(), Opd::Imm(x) => Val::I(*x), Opd::K(k) => f.kv.get_or_init(|| f.consts.iter().map(k2v).collect())[*k as usize].clone(), Opd::Undef => Val::I(0) };
        match e.copies.len() {
            0 => {}
            1 => { let x = get(fr, &e.copies[0].1); fr.regs[e.copies[0].0 as usize] = x; }
            _ => { let t: Vec<Val> = e.copies.iter().map(|c| get(fr, &c.1)).collect(); for (c, x) in e.copies.iter().zip(t) { fr.regs[c.0 as usize] = x; } }
        }
        fr.blk = e.to;
        fr.ip = 0;
    }

    pub fn inputs_of(&self, st: &State, m: &Model) -> Vec<(u32, u64)> {
        st.trace.iter().map(|i| match i { In::Var(v) => (var_width(*v), (*m.get(v).unwrap_or(&0) as u64) & mask64(var_width(*v))), In::Const(c) => (0, *c) }).collect()
    }
    pub fn report(&mut self, st: &State, m: &Model, kind: &str, msg: String) {
        let key = format!("{kind}|{}|{msg}", st.kf);
        let n = self.vcount.entry(key).or_insert(0);
        *n += 1;
        if *n > 2 || self.violations.len() > 40 { return; }
        let v = Violation { kind: kind.into(), msg, kf: st.kf, inputs: self.inputs_of(st, m), stack: st.stack_names(8), harness: self.harness.clone() };
        self.violations.push(v);
    }
    /// Run one state until it ends; forks are pushed on the work list.
    pub fn run_state(&mut self, mut st: State, deadline: std::time::Instant) -> bool {
        let mut n: u32 = 0;
        loop {
            n += 1;
            if n & 0x3fff == 0 {
                self.instrs += 0x4000;
                st.steps += 0x4000;
                if std::time::Instant::now() >= deadline { self.work.push(st); return false; }
                if st.steps > self.step_limit { self.incomplete("path step limit"); return true; }
                if self.maybe_share() { return true; }
            }
            match self.step(&mut st) {
                Ok(()) => {}
                Err(s) => match s {
                    Stop::Done => { self.paths += 1; if self.samples.len() < 3 { let i = self.inputs_of(&st, &st.model); self.samples.push(format!("{}: path end, witness inputs {:?}", self.harness, i.iter().map(|x| x.1).collect::<Vec<_>>())); } break; }
                    Stop::Kill => { self.killed += 1; break; }
                    Stop::Unsup(m) => {
                        let s = st.stack_names(4);
                        self.incomplete(&format!("not encodable: {m} [{}]", s.join(" < ")));
                        break;
                    }
                    Stop::Panic(m) => { let mo = st.model.clone(); self.report(&st, &mo, "panic", m); self.paths += 1; break; }
                    Stop::Split(e) => {
                        self.forks += 1;
                        self.note_fork(&st);
                        let mv = self.model_true(&st, &e);
                        let mut other = st.clone();
                        self.add(&mut st, &if mv { e.clone() } else { not(&e) });
                        if self.constrain(&mut other, &if mv { not(&e) } else { e.clone() }) { self.work.push(other); }
                    }
                    Stop::Conc(e) => {
                        self.forks += 1;
                        self.note_fork(&st);
                        let cap = self.conc_cap;
                        let mut v = self.values(&st, &e, cap);
                        match v.pop() { None => { self.incomplete("no feasible value"); break; } Some(s) => { st = s; self.work.extend(v); } }
                    }
                    Stop::Choose(k) => {
                        self.note_fork(&st);
                        for i in 1..k { let mut s = st.clone(); s.chosen = Some(i); self.work.push(s); }
                        st.chosen = Some(0);
                    }
                },
            }
        }
        self.instrs += (n & 0x3fff) as u64;
        true
    }
    fn note_fork(&mut self, st: &State) {
        if self.forksites.is_some() {
            let k = st.stack_names(3).join(" < ");
            *self.forksites.as_mut().unwrap().entry(k).or_insert(0) += 1;
        }
    }
}
pub fn showv(v: &Val) -> String { match v { Val::I(x) => format!("{x:#x}"), Val::S(e) => show(e, 4), Val::W(x) => format!("{:#x}", **x), Val::A(a) => format!("[{}]", a.iter().map(showv).collect::<Vec<_>>().join(",")) } }
pub fn var_ex(v: u32) -> Ex { var_by_index(v) }

pub fn write_k(m: &Module, d: &mut [u8], off: usize, ty: TyId, k: &K) {
    let t = m.types.borrow().t[ty as usize].clone();
    match (t, k) {
        (Ty::Int(w), K::I(v)) => { let n = (w as usize + 7) / 8; for i in 0..n.min(8) { d[off + i] = (*v >> (8 * i)) as u8; } }
        (Ty::Int(w), K::W(v)) => { let n = (w as usize + 7) / 8; for i in 0..n { d[off + i] = (*v >> (8 * i)) as u8; } }
        (Ty::Ptr | Ty::F64, K::I(v)) => d[off..off + 8].copy_from_slice(&v.to_le_bytes()),
        (Ty::F32, K::I(v)) => d[off..off + 4].copy_from_slice(&(*v as u32).to_le_bytes()),
        (Ty::Arr(..) | Ty::Struct(..) | Ty::Vec(..), K::Agg(v)) => for (i, x) in v.iter().enumerate() { let (o, ft) = m.types.borrow().field(ty, i as u64); write_k(m, d, off + o as usize, ft, x); },
        _ => {}
    }
}
