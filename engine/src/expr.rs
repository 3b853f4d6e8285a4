//! Hash-consed bit-vector / floating-point expressions, their simplifier, a
//! concrete evaluator and exact per-byte value tables.
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[allow(dead_code)]
pub enum Op {
    Const, Var, Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
    Eq, Ult, Ule, Slt, Sle, Concat, Extract, ZExt, SExt, Ite, Table,
    FAdd, FSub, FMul, FDiv, FEq, FLt, FLe, FUno,
    SIToFP, UIToFP, FPToSI, FPToUI, FPToSISat, FPToUISat, FPExt, FPTrunc,
    FFloor, FCeil, FTrunc, FRoundAway, FRoundEven, FSqrt, FMin, FMax,
}

pub struct Node {
    pub id: u32,
    pub op: Op,
    pub w: u32,
    pub k: u128,
    pub a: Vec<Ex>,
    pub tab: Option<Rc<[u64; 256]>>,
    pub vars: VarSet,
}
#[derive(Clone)]
pub struct Ex(pub Rc<Node>);
impl std::ops::Deref for Ex {
    type Target = Node;
    #[inline]
    fn deref(&self) -> &Node { &self.0 }
}
impl PartialEq for Ex { fn eq(&self, o: &Ex) -> bool { self.id == o.id } }

#[derive(Clone, Copy, PartialEq, Eq, Default)]
pub struct VarSet(pub [u64; 4]);
impl VarSet {
    pub fn single(i: u32) -> VarSet { let mut v = VarSet::default(); v.0[(i / 64) as usize] |= 1 << (i % 64); v }
    pub fn union(&self, o: &VarSet) -> VarSet { let mut v = *self; for i in 0..4 { v.0[i] |= o.0[i]; } v }
    pub fn intersects(&self, o: &VarSet) -> bool { (0..4).any(|i| self.0[i] & o.0[i] != 0) }
    pub fn count(&self) -> u32 { self.0.iter().map(|x| x.count_ones()).sum() }
    pub fn is_empty(&self) -> bool { self.0 == [0; 4] }
    pub fn only(&self) -> Option<u32> {
        if self.count() != 1 { return None; }
        for i in 0..4 { if self.0[i] != 0 { return Some(i as u32 * 64 + self.0[i].trailing_zeros()); } }
        None
    }
    pub fn iter(&self) -> Vec<u32> {
        let mut r = vec![];
        for i in 0..4 { let mut x = self.0[i]; while x != 0 { r.push(i as u32 * 64 + x.trailing_zeros()); x &= x - 1; } }
        r
    }
}

#[inline]
pub fn mask(w: u32) -> u128 { if w >= 128 { u128::MAX } else { (1u128 << w) - 1 } }
#[inline]
pub fn mask64(w: u32) -> u64 { if w >= 64 { u64::MAX } else { (1u64 << w) - 1 } }
#[inline]
pub fn sext(v: u128, w: u32) -> i128 { if w >= 128 { v as i128 } else { ((v << (128 - w)) as i128) >> (128 - w) } }

#[derive(Default)]
struct Interner {
    map: HashMap<(Op, u32, u128, Vec<u32>), Ex>,
    next: u32,
    tables: HashMap<u32, Rc<[u64; 256]>>,
    tabnodes: HashMap<(u32, u32, Vec<u64>), Ex>,
    var_w: Vec<u32>,
    var_by_key: HashMap<(u32, u32), u32>,
    small: HashMap<(u32, u64), Ex>,
}
thread_local! { static IN: RefCell<Interner> = RefCell::new(Interner::default()); }

fn intern(op: Op, w: u32, k: u128, a: Vec<Ex>) -> Ex {
    IN.with(|i| {
        let mut i = i.borrow_mut();
        let key = (op, w, k, a.iter().map(|x| x.id).collect::<Vec<_>>());
        if let Some(e) = i.map.get(&key) { return e.clone(); }
        let id = i.next;
        i.next += 1;
        let mut vars = VarSet::default();
        for x in &a { vars = vars.union(&x.vars); }
        let e = Ex(Rc::new(Node { id, op, w, k, a, tab: None, vars }));
        i.map.insert(key, e.clone());
        e
    })
}
pub fn konst(w: u32, v: u128) -> Ex {
    let v = v & mask(w);
    if v <= u64::MAX as u128 {
        if let Some(e) = IN.with(|i| i.borrow().small.get(&(w, v as u64)).cloned()) { return e; }
        let e = intern(Op::Const, w, v, vec![]);
        IN.with(|i| i.borrow_mut().small.insert((w, v as u64), e.clone()));
        e
    } else { intern(Op::Const, w, v, vec![]) }
}
/// The variable that is the `ord`-th input of a path and has width `w`.
pub fn var(ord: u32, w: u32) -> Ex {
    let idx = IN.with(|i| {
        let mut i = i.borrow_mut();
        if let Some(x) = i.var_by_key.get(&(ord, w)) { return *x; }
        let idx = i.var_w.len() as u32;
        i.var_w.push(w);
        i.var_by_key.insert((ord, w), idx);
        idx
    });
    assert!(idx < 256, "too many symbolic variables");
    IN.with(|i| {
        let mut i = i.borrow_mut();
        let key = (Op::Var, w, idx as u128, vec![]);
        if let Some(e) = i.map.get(&key) { return e.clone(); }
        let id = i.next;
        i.next += 1;
        let e = Ex(Rc::new(Node { id, op: Op::Var, w, k: idx as u128, a: vec![], tab: None, vars: VarSet::single(idx) }));
        i.map.insert(key, e.clone());
        e
    })
}
pub fn var_by_index(idx: u32) -> Ex {
    let w = var_width(idx);
    IN.with(|i| i.borrow().map.get(&(Op::Var, w, idx as u128, vec![])).cloned().expect("variable"))
}
pub fn var_width(idx: u32) -> u32 { IN.with(|i| i.borrow().var_w[idx as usize]) }
pub fn num_nodes() -> u32 { IN.with(|i| i.borrow().next) }

/// Lookup table over an 8-bit variable.
pub fn table(v: &Ex, w: u32, vals: [u64; 256]) -> Ex {
    if vals.iter().all(|x| *x == vals[0]) { return konst(w, vals[0] as u128); }
    if w == 8 && vals.iter().enumerate().all(|(i, x)| *x == i as u64) { return v.clone(); }
    IN.with(|i| {
        let mut i = i.borrow_mut();
        let key = (v.k as u32, w, vals.to_vec());
        if let Some(e) = i.tabnodes.get(&key) { return e.clone(); }
        let id = i.next;
        i.next += 1;
        let rc = Rc::new(vals);
        let e = Ex(Rc::new(Node { id, op: Op::Table, w, k: 0, a: vec![v.clone()], tab: Some(rc.clone()), vars: v.vars }));
        i.tables.insert(id, rc);
        i.tabnodes.insert(key, e.clone());
        e
    })
}

impl Ex {
    #[inline]
    pub fn c(&self) -> Option<u128> { if self.op == Op::Const { Some(self.k) } else { None } }
    pub fn single8(&self) -> Option<u32> {
        let v = self.vars.only()?;
        if var_width(v) <= 8 { Some(v) } else { None }
    }
}

fn f64b(x: u128) -> f64 { f64::from_bits(x as u64) }
fn f32b(x: u128) -> f32 { f32::from_bits(x as u32) }
fn fbits(w: u32, v: f64) -> u128 { if w == 32 { (v as f32).to_bits() as u128 } else { v.to_bits() as u128 } }
fn fval(w: u32, v: u128) -> f64 { if w == 32 { f32b(v) as f64 } else { f64b(v) } }

pub fn eval_op(op: Op, w: u32, k: u128, aw: u32, a: &[u128], tab: Option<&[u64; 256]>) -> u128 {
    use Op::*;
    let m = mask(w);
    let r = match op {
        Const | Var => k,
        Add => a[0].wrapping_add(a[1]),
        Sub => a[0].wrapping_sub(a[1]),
        Mul => a[0].wrapping_mul(a[1]),
        UDiv => if a[1] == 0 { m } else { a[0] / a[1] },
        URem => if a[1] == 0 { a[0] } else { a[0] % a[1] },
        SDiv => { let (x, y) = (sext(a[0], w), sext(a[1], w)); if y == 0 { m } else { x.wrapping_div(y) as u128 } }
        SRem => { let (x, y) = (sext(a[0], w), sext(a[1], w)); if y == 0 { a[0] } else { x.wrapping_rem(y) as u128 } }
        And => a[0] & a[1],
        Or => a[0] | a[1],
        Xor => a[0] ^ a[1],
        Shl => if a[1] >= w as u128 { 0 } else { a[0] << a[1] },
        LShr => if a[1] >= w as u128 { 0 } else { a[0] >> a[1] },
        AShr => { let s = a[1].min(w as u128 - 1); (sext(a[0], w) >> s) as u128 }
        Eq => (a[0] == a[1]) as u128,
        Ult => (a[0] < a[1]) as u128,
        Ule => (a[0] <= a[1]) as u128,
        Slt => (sext(a[0], aw) < sext(a[1], aw)) as u128,
        Sle => (sext(a[0], aw) <= sext(a[1], aw)) as u128,
        Concat => unreachable!(),
        Extract => a[0] >> k,
        ZExt => a[0],
        SExt => sext(a[0], aw) as u128,
        Ite => if a[0] != 0 { a[1] } else { a[2] },
        Table => tab.unwrap()[(a[0] & 255) as usize] as u128,
        FAdd => if w == 32 { (f32b(a[0]) + f32b(a[1])).to_bits() as u128 } else { (f64b(a[0]) + f64b(a[1])).to_bits() as u128 },
        FSub => if w == 32 { (f32b(a[0]) - f32b(a[1])).to_bits() as u128 } else { (f64b(a[0]) - f64b(a[1])).to_bits() as u128 },
        FMul => if w == 32 { (f32b(a[0]) * f32b(a[1])).to_bits() as u128 } else { (f64b(a[0]) * f64b(a[1])).to_bits() as u128 },
        FDiv => if w == 32 { (f32b(a[0]) / f32b(a[1])).to_bits() as u128 } else { (f64b(a[0]) / f64b(a[1])).to_bits() as u128 },
        FEq => (fval(aw, a[0]) == fval(aw, a[1])) as u128,
        FLt => (fval(aw, a[0]) < fval(aw, a[1])) as u128,
        FLe => (fval(aw, a[0]) <= fval(aw, a[1])) as u128,
        FUno => (fval(aw, a[0]).is_nan() || fval(aw, a[1]).is_nan()) as u128,
        SIToFP => { let x = sext(a[0], aw); if w == 32 { (x as f32).to_bits() as u128 } else { (x as f64).to_bits() as u128 } }
        UIToFP => { let x = a[0]; if w == 32 { (x as f32).to_bits() as u128 } else { (x as f64).to_bits() as u128 } }
        FPToSI | FPToSISat => { let x = fval(aw, a[0]); let lo = -(1i128 << (w - 1)); let hi = (1i128 << (w - 1)) - 1; let y = x as i128; (if x.is_nan() { 0 } else { y.clamp(lo, hi) }) as u128 }
        FPToUI | FPToUISat => { let x = fval(aw, a[0]); let y = if x.is_nan() || x <= 0.0 { 0 } else { x as u128 }; y.min(m) }
        FPExt => (f32b(a[0]) as f64).to_bits() as u128,
        FPTrunc => (f64b(a[0]) as f32).to_bits() as u128,
        FFloor => fbits(w, fval(w, a[0]).floor()),
        FCeil => fbits(w, fval(w, a[0]).ceil()),
        FTrunc => fbits(w, fval(w, a[0]).trunc()),
        FRoundAway => fbits(w, fval(w, a[0]).round()),
        FRoundEven => fbits(w, fval(w, a[0]).round_ties_even()),
        FSqrt => if w == 32 { f32b(a[0]).sqrt().to_bits() as u128 } else { f64b(a[0]).sqrt().to_bits() as u128 },
        FMin => fbits(w, fval(w, a[0]).min(fval(w, a[1]))),
        FMax => fbits(w, fval(w, a[0]).max(fval(w, a[1]))),
    };
    r & m
}

pub fn mk(op: Op, w: u32, a: Vec<Ex>) -> Ex { mkk(op, w, 0, a) }
pub fn mkk(op: Op, w: u32, k: u128, a: Vec<Ex>) -> Ex {
    use Op::*;
    if op != Concat && a.iter().all(|x| x.op == Const) {
        let v: Vec<u128> = a.iter().map(|x| x.k).collect();
        return konst(w, eval_op(op, w, k, a[0].w, &v, None));
    }
    if matches!(op, FEq | FLt | FLe | FUno | FPToUI | FPToUISat | FPToSI | FPToSISat) { if let Some(r) = scaled_rewrite(op, w, &a) { return r; } }
    let m = mask(w);
    match op {
        Add => {
            if a[0].op == Const && a[1].op != Const { return mk(Add, w, vec![a[1].clone(), a[0].clone()]); }
            if a[1].c() == Some(0) { return a[0].clone(); }
            if let Some(c1) = a[1].c() {
                if a[0].op == Add { if let Some(c0) = a[0].a[1].c() { return mk(Add, w, vec![a[0].a[0].clone(), konst(w, c0.wrapping_add(c1))]); } }
                if a[0].op == Ite && a[0].a[1].c().is_some() && a[0].a[2].c().is_some() { return ite_push(op, w, &a[0], &a[1], false); }
            }
        }
        Sub => {
            if let Some(c) = a[1].c() { return mk(Add, w, vec![a[0].clone(), konst(w, c.wrapping_neg())]); }
            if a[0] == a[1] { return konst(w, 0); }
            if a[0].op == Add && a[0].a[0] == a[1] { return a[0].a[1].clone(); }
            if a[0].op == Add && a[1].op == Add && a[0].a[0] == a[1].a[0] { return mk(Sub, w, vec![a[0].a[1].clone(), a[1].a[1].clone()]); }
            if a[1].op == Add && a[1].a[0] == a[0] { return mk(Sub, w, vec![konst(w, 0), a[1].a[1].clone()]); }
        }
        Mul => {
            if a[0].op == Const && a[1].op != Const { return mk(Mul, w, vec![a[1].clone(), a[0].clone()]); }
            if let Some(c) = a[1].c() {
                if c == 0 { return konst(w, 0); }
                if c == 1 { return a[0].clone(); }
                if c.is_power_of_two() { return mk(Shl, w, vec![a[0].clone(), konst(w, c.trailing_zeros() as u128)]); }
            }
        }
        UDiv => { if let Some(c) = a[1].c() { if c == 1 { return a[0].clone(); } if c.is_power_of_two() { return mk(LShr, w, vec![a[0].clone(), konst(w, c.trailing_zeros() as u128)]); } } }
        URem => { if let Some(c) = a[1].c() { if c.is_power_of_two() { return mk(And, w, vec![a[0].clone(), konst(w, c - 1)]); } if umax_of(&a[0]) < c { return a[0].clone(); } } }
        And => {
            if a[0].op == Const && a[1].op != Const { return mk(And, w, vec![a[1].clone(), a[0].clone()]); }
            if a[0] == a[1] { return a[0].clone(); }
            if let Some(c) = a[1].c() {
                if c == 0 { return konst(w, 0); }
                if c == m { return a[0].clone(); }
                if a[0].op == ZExt && c & mask(a[0].a[0].w) == mask(a[0].a[0].w) { return a[0].clone(); }
                if a[0].op == ZExt { let iw = a[0].a[0].w; return mk(ZExt, w, vec![mk(And, iw, vec![a[0].a[0].clone(), konst(iw, c)])]); }
                if a[0].op == And { if let Some(c0) = a[0].a[1].c() { return mk(And, w, vec![a[0].a[0].clone(), konst(w, c & c0)]); } }
                if (c + 1).is_power_of_two() && umax_of(&a[0]) <= c { return a[0].clone(); }
                if a[0].op == Ite && a[0].a[1].c().is_some() && a[0].a[2].c().is_some() { return ite_push(op, w, &a[0], &a[1], false); }
            }
            if w == 1 && is_not(&a[0], &a[1]) { return konst(1, 0); }
        }
        Or => {
            if a[0].op == Const && a[1].op != Const { return mk(Or, w, vec![a[1].clone(), a[0].clone()]); }
            if a[0] == a[1] { return a[0].clone(); }
            if let Some(c) = a[1].c() { if c == 0 { return a[0].clone(); } if c == m { return konst(w, m); } }
            if w == 1 && is_not(&a[0], &a[1]) { return konst(1, 1); }
        }
        Xor => {
            if a[0].op == Const && a[1].op != Const { return mk(Xor, w, vec![a[1].clone(), a[0].clone()]); }
            if a[0] == a[1] { return konst(w, 0); }
            if let Some(c) = a[1].c() {
                if c == 0 { return a[0].clone(); }
                if a[0].op == Xor { if let Some(c0) = a[0].a[1].c() { return mk(Xor, w, vec![a[0].a[0].clone(), konst(w, c ^ c0)]); } }
                if w == 1 && a[0].op == Ite && a[0].a[1].c().is_some() && a[0].a[2].c().is_some() { return ite_push(op, w, &a[0], &a[1], false); }
            }
        }
        Shl => {
            if let Some(c) = a[1].c() { if c == 0 { return a[0].clone(); } if c >= w as u128 { return konst(w, 0); } }
        }
        LShr => {
            if let Some(c) = a[1].c() {
                if c == 0 { return a[0].clone(); }
                if c >= w as u128 { return konst(w, 0); }
                let c = c as u32;
                return mk(ZExt, w, vec![extract(&a[0], c, w - c)]);
            }
        }
        AShr => { if a[1].c() == Some(0) { return a[0].clone(); } }
        Eq => {
            if a[0].op == Const && a[1].op != Const { return mk(Eq, 1, vec![a[1].clone(), a[0].clone()]); }
            if a[0] == a[1] { return konst(1, 1); }
            if let Some(c) = a[1].c() {
                if a[0].w == 1 { return if c == 1 { a[0].clone() } else { not(&a[0]) }; }
                match a[0].op {
                    ZExt => { let iw = a[0].a[0].w; if c > mask(iw) { return konst(1, 0); } return mk(Eq, 1, vec![a[0].a[0].clone(), konst(iw, c)]); }
                    SExt => { let iw = a[0].a[0].w; let t = c & mask(iw); if (sext(t, iw) as u128) & mask(a[0].w) != c { return konst(1, 0); } return mk(Eq, 1, vec![a[0].a[0].clone(), konst(iw, t)]); }
                    Add => if let Some(c0) = a[0].a[1].c() { return mk(Eq, 1, vec![a[0].a[0].clone(), konst(a[0].w, c.wrapping_sub(c0))]); },
                    Xor => if let Some(c0) = a[0].a[1].c() { return mk(Eq, 1, vec![a[0].a[0].clone(), konst(a[0].w, c ^ c0)]); },
                    Ite => {
                        let (t, e) = (a[0].a[1].c(), a[0].a[2].c());
                        match (t, e) {
                            (Some(t), Some(e)) => return match (t == c, e == c) { (true, true) => konst(1, 1), (false, false) => konst(1, 0), (true, false) => a[0].a[0].clone(), (false, true) => not(&a[0].a[0]) },
                            (Some(t), None) => { let r = mk(Eq, 1, vec![a[0].a[2].clone(), a[1].clone()]); return if t == c { or(&a[0].a[0], &r) } else { and(&not(&a[0].a[0]), &r) }; }
                            (None, Some(e)) => { let r = mk(Eq, 1, vec![a[0].a[1].clone(), a[1].clone()]); return if e == c { or(&not(&a[0].a[0]), &r) } else { and(&a[0].a[0], &r) }; }
                            _ => {}
                        }
                    }
                    Concat => {
                        let lo = &a[0].a[1]; let hi = &a[0].a[0];
                        let l = mk(Eq, 1, vec![lo.clone(), konst(lo.w, c)]);
                        let h = mk(Eq, 1, vec![hi.clone(), konst(hi.w, c >> lo.w)]);
                        return and(&l, &h);
                    }
                    _ => {}
                }
                if c > umax_of(&a[0]) { return konst(1, 0); }
            } else if a[0].op == ZExt && a[1].op == ZExt && a[0].a[0].w == a[1].a[0].w { return mk(Eq, 1, vec![a[0].a[0].clone(), a[1].a[0].clone()]); }
        }
        Ult | Ule => {
            if a[0] == a[1] { return konst(1, (op == Ule) as u128); }
            let (x, y) = (&a[0], &a[1]);
            if let Some(c) = y.c() {
                if op == Ult && c == 0 { return konst(1, 0); }
                if op == Ule && c == mask(y.w) { return konst(1, 1); }
                let um = umax_of(x);
                if (op == Ult && um < c) || (op == Ule && um <= c) { return konst(1, 1); }
                if x.op == ZExt { let iw = x.a[0].w; if c <= mask(iw) { return mk(op, 1, vec![x.a[0].clone(), konst(iw, c)]); } }
            }
            if let Some(c) = x.c() {
                if op == Ule && c == 0 { return konst(1, 1); }
                if op == Ult && c == mask(x.w) { return konst(1, 0); }
                let um = umax_of(y);
                if (op == Ult && um <= c) || (op == Ule && um < c) { return konst(1, 0); }
                if y.op == ZExt { let iw = y.a[0].w; if c <= mask(iw) { return mk(op, 1, vec![konst(iw, c), y.a[0].clone()]); } }
            }
            if x.op == ZExt && y.op == ZExt && x.a[0].w == y.a[0].w { return mk(op, 1, vec![x.a[0].clone(), y.a[0].clone()]); }
        }
        Slt | Sle => {
            if a[0] == a[1] { return konst(1, (op == Sle) as u128); }
            // both non-negative: compare unsigned
            let h = mask(a[0].w) >> 1;
            if umax_of(&a[0]) <= h && umax_of(&a[1]) <= h { return mk(if op == Slt { Ult } else { Ule }, 1, a); }
        }
        Extract => {
            let x = &a[0];
            let lo = k as u32;
            if lo == 0 && w == x.w { return x.clone(); }
            match x.op {
                Extract => return mkk(Extract, w, k + x.k, vec![x.a[0].clone()]),
                Concat => {
                    let l = &x.a[1]; let h = &x.a[0];
                    if lo + w <= l.w { return extract(l, lo, w); }
                    if lo >= l.w { return extract(h, lo - l.w, w); }
                    let p = extract(l, lo, l.w - lo); let q = extract(h, 0, w - (l.w - lo));
                    return concat(&q, &p);
                }
                ZExt => {
                    let i = &x.a[0];
                    if lo >= i.w { return konst(w, 0); }
                    if lo + w <= i.w { return extract(i, lo, w); }
                    return mk(ZExt, w, vec![extract(i, lo, i.w - lo)]);
                }
                SExt => { let i = &x.a[0]; if lo + w <= i.w { return extract(i, lo, w); } }
                And | Or | Xor => { return mk(x.op, w, vec![extract(&x.a[0], lo, w), extract(&x.a[1], lo, w)]); }
                Add | Sub | Mul if lo == 0 => { return mk(x.op, w, vec![extract(&x.a[0], 0, w), extract(&x.a[1], 0, w)]); }
                Ite if x.a[1].c().is_some() || x.a[2].c().is_some() => { return ite(&x.a[0], &extract(&x.a[1], lo, w), &extract(&x.a[2], lo, w)); }
                Shl => if let Some(c) = x.a[1].c() {
                    let c = c as u32;
                    if lo >= c { return extract(&x.a[0], lo - c, w); }
                    if lo + w <= c { return konst(w, 0); }
                }
                _ => {}
            }
        }
        ZExt => { if w == a[0].w { return a[0].clone(); } if a[0].op == ZExt { return mk(ZExt, w, vec![a[0].a[0].clone()]); } }
        SExt => {
            if w == a[0].w { return a[0].clone(); }
            if a[0].op == SExt { return mk(SExt, w, vec![a[0].a[0].clone()]); }
            if a[0].op == ZExt && a[0].a[0].w < a[0].w { return mk(ZExt, w, vec![a[0].a[0].clone()]); }
        }
        Ite => {
            if let Some(c) = a[0].c() { return if c != 0 { a[1].clone() } else { a[2].clone() }; }
            if a[1] == a[2] { return a[1].clone(); }
            if w == 1 {
                match (a[1].c(), a[2].c()) {
                    (Some(1), Some(0)) => return a[0].clone(),
                    (Some(0), Some(1)) => return not(&a[0]),
                    (Some(1), None) => return or(&a[0], &a[2]),
                    (Some(0), None) => return and(&not(&a[0]), &a[2]),
                    (None, Some(0)) => return and(&a[0], &a[1]),
                    (None, Some(1)) => return or(&not(&a[0]), &a[1]),
                    _ => {}
                }
            }
            if a[0].op == Xor && a[0].w == 1 && a[0].a[1].c() == Some(1) { return mk(Ite, w, vec![a[0].a[0].clone(), a[2].clone(), a[1].clone()]); }
        }
        _ => {}
    }
    intern(op, w, k, a)
}
fn ite_push(op: Op, w: u32, i: &Ex, c: &Ex, rev: bool) -> Ex {
    let f = |x: &Ex| if rev { mk(op, w, vec![c.clone(), x.clone()]) } else { mk(op, w, vec![x.clone(), c.clone()]) };
    ite(&i.a[0], &f(&i.a[1]), &f(&i.a[2]))
}
fn is_not(a: &Ex, b: &Ex) -> bool {
    (a.op == Op::Xor && a.a[1].c() == Some(1) && a.a[0] == *b) || (b.op == Op::Xor && b.a[1].c() == Some(1) && b.a[0] == *a)
}
/// A cheap upper bound on the unsigned value.
pub fn umax_of(e: &Ex) -> u128 {
    fn go(e: &Ex, d: u32) -> u128 {
        let m = mask(e.w);
        if d == 0 { return m; }
        match e.op {
            Op::Const => e.k,
            Op::ZExt => go(&e.a[0], d - 1),
            Op::And => go(&e.a[0], d - 1).min(go(&e.a[1], d - 1)),
            Op::URem => match e.a[1].c() { Some(c) if c > 0 => go(&e.a[0], d - 1).min(c - 1), _ => m },
            Op::UDiv => match e.a[1].c() { Some(c) if c > 0 => go(&e.a[0], d - 1) / c, _ => m },
            Op::Ite => go(&e.a[1], d - 1).max(go(&e.a[2], d - 1)),
            Op::Table => e.tab.as_ref().unwrap().iter().copied().max().unwrap() as u128,
            Op::Add => { let s = go(&e.a[0], d - 1).saturating_add(go(&e.a[1], d - 1)); if s > m { m } else { s } }
            Op::Mul => { let s = go(&e.a[0], d - 1).saturating_mul(go(&e.a[1], d - 1)); if s > m { m } else { s } }
            Op::Shl => match e.a[1].c() { Some(c) if c < 64 && e.w <= 64 => { let s = go(&e.a[0], d - 1) << c; if s > m { m } else { s } } _ => m },
            Op::Concat => { let lw = e.a[1].w; (go(&e.a[0], d - 1) << lw) | mask(lw) }
            _ => m,
        }
    }
    go(e, 6)
}
pub fn not(a: &Ex) -> Ex { mk(Op::Xor, 1, vec![a.clone(), konst(1, 1)]) }
pub fn and(a: &Ex, b: &Ex) -> Ex { mk(Op::And, 1, vec![a.clone(), b.clone()]) }
pub fn or(a: &Ex, b: &Ex) -> Ex { mk(Op::Or, 1, vec![a.clone(), b.clone()]) }
pub fn ite(c: &Ex, a: &Ex, b: &Ex) -> Ex { mk(Op::Ite, a.w, vec![c.clone(), a.clone(), b.clone()]) }
pub fn eq(a: &Ex, b: &Ex) -> Ex { mk(Op::Eq, 1, vec![a.clone(), b.clone()]) }
pub fn extract(e: &Ex, lo: u32, w: u32) -> Ex { mkk(Op::Extract, w, lo as u128, vec![e.clone()]) }
pub fn concat(hi: &Ex, lo: &Ex) -> Ex {
    let w = hi.w + lo.w;
    if let (Some(h), Some(l)) = (hi.c(), lo.c()) { return konst(w, (h << lo.w) | l); }
    if hi.c() == Some(0) { return mk(Op::ZExt, w, vec![lo.clone()]); }
    if hi.op == Op::Extract && lo.op == Op::Extract && hi.a[0] == lo.a[0] && hi.k == lo.k + lo.w as u128 {
        return extract(&lo.a[0], lo.k as u32, w);
    }
    // sequence of bytes concatenated high-to-low: (hi = concat(x, y)), keep left-nested
    if hi.op == Op::ZExt && hi.a[0].op == Op::Extract && lo.op == Op::Extract && hi.a[0].a[0] == lo.a[0] && hi.a[0].k == lo.k + lo.w as u128 {
        return mk(Op::ZExt, w, vec![extract(&lo.a[0], lo.k as u32, hi.a[0].w + lo.w)]);
    }
    if lo.op == Op::Concat {
        let h2 = concat(hi, &lo.a[0]);
        if h2.op != Op::Concat { return concat(&h2, &lo.a[1]); }
    }
    intern(Op::Concat, w, 0, vec![hi.clone(), lo.clone()])
}

pub type Model = HashMap<u32, u128>;
pub fn eval(e: &Ex, m: &Model, memo: &mut HashMap<u32, u128>) -> u128 {
    match e.op {
        Op::Const => return e.k,
        Op::Var => return *m.get(&(e.k as u32)).unwrap_or(&0) & mask(e.w),
        _ => {}
    }
    if let Some(v) = memo.get(&e.id) { return *v; }
    let r = match e.op {
        Op::Ite => { if eval(&e.a[0], m, memo) != 0 { eval(&e.a[1], m, memo) } else { eval(&e.a[2], m, memo) } }
        Op::Concat => { let h = eval(&e.a[0], m, memo); let l = eval(&e.a[1], m, memo); (h << e.a[1].w) | l }
        _ => {
            let v: Vec<u128> = e.a.iter().map(|x| eval(x, m, memo)).collect();
            eval_op(e.op, e.w, e.k, e.a[0].w, &v, e.tab.as_deref())
        }
    };
    memo.insert(e.id, r);
    r
}
/// Exact value table of an expression over a single variable of at most 8 bits.
pub fn table_of(e: &Ex) -> Option<Rc<[u64; 256]>> {
    if e.w > 64 { return None; }
    if let Some(t) = IN.with(|i| i.borrow().tables.get(&e.id).cloned()) { return Some(t); }
    let mut out = [0u64; 256];
    match e.op {
        Op::Const => out = [e.k as u64; 256],
        Op::Var => { for i in 0..256 { out[i] = i as u64 & mask64(e.w); } }
        _ => {
            if e.a.iter().any(|x| x.w > 64) {
                let v = e.vars.only()?;
                for i in 0..256 { let mut m = Model::new(); m.insert(v, i as u128); out[i] = eval(e, &m, &mut HashMap::new()) as u64; }
            } else {
                let ts: Vec<Rc<[u64; 256]>> = e.a.iter().map(table_of).collect::<Option<_>>()?;
                for i in 0..256 {
                    out[i] = match e.op {
                        Op::Concat => (ts[0][i] << e.a[1].w) | ts[1][i],
                        Op::Ite => if ts[0][i] != 0 { ts[1][i] } else { ts[2][i] },
                        _ => { let v: [u128; 3] = [ts[0][i] as u128, ts.get(1).map_or(0, |t| t[i] as u128), ts.get(2).map_or(0, |t| t[i] as u128)]; eval_op(e.op, e.w, e.k, e.a[0].w, &v[..ts.len()], e.tab.as_deref()) as u64 }
                    };
                }
            }
        }
    }
    let rc = Rc::new(out);
    IN.with(|i| i.borrow_mut().tables.insert(e.id, rc.clone()));
    Some(rc)
}
pub fn show(e: &Ex, d: u32) -> String {
    if d == 0 { return "..".into(); }
    match e.op {
        Op::Const => format!("{:#x}", e.k),
        Op::Var => format!("v{}", e.k),
        _ => format!("({:?}{}{} {})", e.op, e.w, if e.op == Op::Extract { format!("@{}", e.k) } else { String::new() }, e.a.iter().map(|x| show(x, d - 1)).collect::<Vec<_>>().join(" ")),
    }
}

/// A float term that equals `n * 2^-s` exactly, with its integer range: float arithmetic on
/// such terms is rewritten to bit-vector arithmetic as long as every result is representable.
#[derive(Clone)]
pub struct Scaled { pub n: Ex, pub s: i32, pub lo: i128, pub hi: i128 }
thread_local! { static SCALED: std::cell::RefCell<HashMap<u32, Option<Scaled>>> = std::cell::RefCell::new(HashMap::new()); }
fn fits(lo: i128, hi: i128, w: u32) -> bool { let b = 1i128 << if w == 32 { 24 } else { 53 }; lo > -b && hi < b }
fn k64(v: i128) -> Ex { konst(64, v as u128) }
fn shl64(e: &Ex, k: i32) -> Ex { if k == 0 { e.clone() } else { mk(Op::Shl, 64, vec![e.clone(), konst(64, k as u128)]) } }
fn align(a: &Scaled, b: &Scaled) -> Option<(Scaled, Scaled)> {
    let s = a.s.max(b.s);
    let up = |x: &Scaled| -> Option<Scaled> {
        let d = s - x.s;
        if d > 60 { return if x.lo == 0 && x.hi == 0 { Some(Scaled { n: k64(0), s, lo: 0, hi: 0 }) } else { None }; }
        let (lo, hi) = (x.lo.checked_mul(1i128 << d)?, x.hi.checked_mul(1i128 << d)?);
        if lo < -(1i128 << 62) || hi > 1i128 << 62 { return None; }
        Some(Scaled { n: shl64(&x.n, d), s, lo, hi })
    };
    Some((up(a)?, up(b)?))
}
pub fn scaled(e: &Ex) -> Option<Scaled> {
    if e.w != 32 && e.w != 64 { return None; }
    if e.op == Op::Const {
        let f = fval(e.w, e.k);
        if f == 0.0 { return if f.is_sign_negative() { None } else { Some(Scaled { n: k64(0), s: 0, lo: 0, hi: 0 }) }; }
        if !f.is_finite() { return None; }
        let b = f.to_bits();
        let ex = (b >> 52 & 0x7ff) as i32;
        if ex == 0 { return None; }
        let mut m = (b & ((1 << 52) - 1) | 1 << 52) as i128;
        let mut s = 1075 - ex;
        while m & 1 == 0 { m >>= 1; s -= 1; }
        if s < 0 { if s < -60 { return None; } let v = m.checked_mul(1i128 << -s)?; if v >= 1i128 << 62 { return None; } m = v; s = 0; }
        if s > 60 { return None; }
        if f < 0.0 { m = -m; }
        return Some(Scaled { n: k64(m), s, lo: m, hi: m });
    }
    if let Some(r) = SCALED.with(|c| c.borrow().get(&e.id).cloned()) { return r; }
    let r = scaled_go(e);
    SCALED.with(|c| c.borrow_mut().insert(e.id, r.clone()));
    r
}
fn scaled_go(e: &Ex) -> Option<Scaled> {
    let w = e.w;
    let ok = |n: Ex, s: i32, lo: i128, hi: i128| if fits(lo, hi, w) && (-8..=60).contains(&s) { Some(Scaled { n, s, lo, hi }) } else { None };
    match e.op {
        Op::UIToFP => { let x = &e.a[0]; let hi = umax_of(x); if x.w > 64 || hi >= 1 << 53 { return None; } ok(if x.w == 64 { x.clone() } else { mk(Op::ZExt, 64, vec![x.clone()]) }, 0, 0, hi as i128) }
        Op::SIToFP => {
            let x = &e.a[0];
            let hi = umax_of(x);
            if x.w <= 64 && hi <= mask(x.w) >> 1 && hi < 1 << 53 { return ok(if x.w == 64 { x.clone() } else { mk(Op::ZExt, 64, vec![x.clone()]) }, 0, 0, hi as i128); }
            if x.w > 32 { return None; }
            ok(mk(Op::SExt, 64, vec![x.clone()]), 0, -(1i128 << (x.w - 1)), (1i128 << (x.w - 1)) - 1)
        }
        Op::FPExt => scaled(&e.a[0]),
        Op::FPTrunc => { let x = scaled(&e.a[0])?; ok(x.n, x.s, x.lo, x.hi) }
        Op::FAdd | Op::FSub => {
            let (a, b) = (scaled(&e.a[0])?, scaled(&e.a[1])?);
            let (a, b) = align(&a, &b)?;
            if e.op == Op::FAdd { ok(mk(Op::Add, 64, vec![a.n, b.n]), a.s, a.lo + b.lo, a.hi + b.hi) } else { ok(mk(Op::Sub, 64, vec![a.n, b.n]), a.s, a.lo - b.hi, a.hi - b.lo) }
        }
        Op::FMul => {
            let (a, b) = (scaled(&e.a[0])?, scaled(&e.a[1])?);
            // a product with a zero factor and a negative one is -0
            if (a.lo < 0 && b.lo <= 0) || (b.lo < 0 && a.lo <= 0) { return None; }
            let c = [a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi];
            ok(mk(Op::Mul, 64, vec![a.n, b.n]), a.s + b.s, *c.iter().min().unwrap(), *c.iter().max().unwrap())
        }
        Op::FDiv => {
            let (a, b) = (scaled(&e.a[0])?, scaled(&e.a[1])?);
            let d = b.n.c()? as u64;
            if b.lo <= 0 || !d.is_power_of_two() || a.lo < 0 { return None; }
            let k = d.trailing_zeros() as i32 - b.s;
            if k >= 0 { ok(a.n, a.s + k, a.lo, a.hi) } else { ok(shl64(&a.n, -k), a.s, a.lo << -k, a.hi << -k) }
        }
        Op::FMin | Op::FMax => {
            let (a, b) = (scaled(&e.a[0])?, scaled(&e.a[1])?);
            let (a, b) = align(&a, &b)?;
            let c = mk(Op::Slt, 1, vec![a.n.clone(), b.n.clone()]);
            if e.op == Op::FMin { ok(ite(&c, &a.n, &b.n), a.s, a.lo.min(b.lo), a.hi.min(b.hi)) } else { ok(ite(&c, &b.n, &a.n), a.s, a.lo.max(b.lo), a.hi.max(b.hi)) }
        }
        Op::Ite => {
            let (a, b) = (scaled(&e.a[1])?, scaled(&e.a[2])?);
            let (a, b) = align(&a, &b)?;
            ok(ite(&e.a[0], &a.n, &b.n), a.s, a.lo.min(b.lo), a.hi.max(b.hi))
        }
        Op::FFloor | Op::FTrunc | Op::FCeil | Op::FRoundAway => {
            let a = scaled(&e.a[0])?;
            if a.s <= 0 { return Some(a); }
            if a.lo < 0 { return None; }
            let add = match e.op { Op::FFloor | Op::FTrunc => 0, Op::FCeil => (1i128 << a.s) - 1, _ => 1i128 << (a.s - 1) };
            if a.hi + add >= 1 << 62 { return None; }
            let n = mk(Op::LShr, 64, vec![mk(Op::Add, 64, vec![a.n, k64(add)]), konst(64, a.s as u128)]);
            ok(n, 0, (a.lo + add) >> a.s, (a.hi + add) >> a.s)
        }
        _ => None,
    }
}
fn scaled_rewrite(op: Op, w: u32, a: &[Ex]) -> Option<Ex> {
    match op {
        Op::FEq | Op::FLt | Op::FLe | Op::FUno => {
            let (x, y) = (scaled(&a[0])?, scaled(&a[1])?);
            if op == Op::FUno { return Some(konst(1, 0)); }
            let (x, y) = align(&x, &y)?;
            Some(mk(match op { Op::FEq => Op::Eq, Op::FLt => Op::Slt, _ => Op::Sle }, 1, vec![x.n, y.n]))
        }
        Op::FPToUI | Op::FPToUISat | Op::FPToSI | Op::FPToSISat => {
            if w > 64 { return None; }
            let x = scaled(&a[0])?;
            let sg = matches!(op, Op::FPToSI | Op::FPToSISat);
            let neg = mk(Op::Slt, 1, vec![x.n.clone(), k64(0)]);
            let shr = |n: &Ex| if x.s <= 0 { shl64(n, -x.s) } else { mk(Op::LShr, 64, vec![n.clone(), konst(64, x.s as u128)]) };
            let sh = |v: i128| if x.s <= 0 { v << -x.s } else if v >= 0 { v >> x.s } else { -(-v >> x.s) };
            let (lo, hi) = (sh(x.lo), sh(x.hi));
            let pos = shr(&x.n);
            let mut r = if x.lo >= 0 { pos } else if sg { let m = mk(Op::Sub, 64, vec![k64(0), x.n.clone()]); ite(&neg, &mk(Op::Sub, 64, vec![k64(0), shr(&m)]), &pos) } else { ite(&neg, &k64(0), &pos) };
            let (tmin, tmax) = if sg { (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1) } else { (0, mask(w) as i128) };
            if hi > tmax { r = ite(&mk(Op::Slt, 1, vec![k64(tmax), r.clone()]), &k64(tmax), &r); }
            if sg && lo < tmin { r = ite(&mk(Op::Slt, 1, vec![r.clone(), k64(tmin)]), &k64(tmin), &r); }
            Some(extract(&r, 0, w))
        }
        _ => None,
    }
}
