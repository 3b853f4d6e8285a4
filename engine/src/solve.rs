//! Path conditions: per-variable domains, entailment, solver slicing, certification.
use crate::exec::*;
use crate::expr::*;
use crate::z3::*;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone)]
pub struct VarState { pub dom: [u64; 4], pub cons: Vec<Ex>, pub fp: u64 }
fn mix(a: u64, b: u64) -> u64 { let mut x = a ^ b.wrapping_mul(0x9E37_79B9_7F4A_7C15); x ^= x >> 29; x = x.wrapping_mul(0xBF58_476D_1CE4_E5B9); x ^ (x >> 32) }
pub fn full_dom(w: u32) -> [u64; 4] {
    if w >= 8 { return [u64::MAX; 4]; }
    let n = 1u64 << w;
    let mut d = [0u64; 4];
    for i in 0..n { d[(i / 64) as usize] |= 1 << (i % 64); }
    d
}
#[inline]
pub fn in_dom(d: &[u64; 4], i: usize) -> bool { d[i >> 6] >> (i & 63) & 1 == 1 }

impl State {
    pub fn vs(&self, v: u32) -> &VarState { self.vars[v as usize].as_ref().expect("variable of this path") }
}

impl Mach {
    /// Record a branch decided without the solver; it is certified by z3 in batches.
    fn claim(&mut self, st: &State, e: &Ex, b: bool) {
        let vs = e.vars.iter();
        let mut fp = 0u64;
        for v in &vs { fp = mix(fp, st.vs(*v).fp); }
        let key = ((e.id as u64) << 1 | b as u64, fp);
        if !self.claimed.insert(key) { return; }
        let ent = self.pending.entry(fp).or_insert_with(|| (vec![], vec![]));
        if ent.1.is_empty() { for v in &vs { ent.0.extend(st.vs(*v).cons.iter().cloned()); } }
        ent.1.push(if b { e.clone() } else { not(e) });
        if ent.1.len() >= 24 { let (c, cl) = std::mem::take(ent); self.certify(c, cl); }
    }
    fn certify(&mut self, cons: Vec<Ex>, claims: Vec<Ex>) {
        if claims.is_empty() { return; }
        let mut all = claims[0].clone();
        for c in &claims[1..] { all = and(&all, c); }
        if all.c() == Some(1) { self.st_cert += claims.len() as u64; return; }
        let mut q = cons.clone();
        q.push(not(&all));
        match self.solver.check(&q, None) {
            Sat::Unsat => self.st_cert += claims.len() as u64,
            Sat::Unknown => { self.incomplete("pruned branch not certified: solver gave up"); }
            Sat::Sat => {
                eprintln!("ENGINE-BUG: pruned branch is feasible: {} claims, first {}", claims.len(), show(&claims[0], 8));
                for c in &claims { let mut q = cons.clone(); q.push(not(c)); if self.solver.check(&q, None) != Sat::Unsat { eprintln!("  claim {} under {:?}", show(c, 10), cons.iter().map(|x| show(x, 8)).collect::<Vec<_>>()); break; } }
                self.incomplete("ENGINE-BUG: pruned branch feasible");
            }
        }
    }
    pub fn certify_all(&mut self) {
        let p: Vec<_> = std::mem::take(&mut self.pending).into_values().collect();
        for (c, cl) in p { self.certify(c, cl); }
    }

    /// Unsigned range under the domains of the path.
    pub fn rng(&mut self, st: &State, e: &Ex, d: u32) -> (u128, u128) {
        let m = mask(e.w);
        if let Some(c) = e.c() { return (c, c); }
        if let Some(v) = e.single8() { if e.w <= 64 { if let Some(t) = table_of(e) {
            let dom = &st.vs(v).dom;
            let (mut lo, mut hi) = (u64::MAX, 0);
            for i in 0..256 { if in_dom(dom, i) { lo = lo.min(t[i]); hi = hi.max(t[i]); } }
            if lo > hi { return (0, m); }
            return (lo as u128, hi as u128);
        } } }
        if d == 0 { return (0, m); }
        let full = (0, m);
        match e.op {
            Op::ZExt => self.rng(st, &e.a[0], d - 1),
            Op::SExt => { let (l, h) = self.rng(st, &e.a[0], d - 1); if h <= mask(e.a[0].w) >> 1 { (l, h) } else { full } }
            Op::Concat => { let (hl, hh) = self.rng(st, &e.a[0], d - 1); let (ll, lh) = self.rng(st, &e.a[1], d - 1); let s = e.a[1].w; ((hl << s) | ll, (hh << s) | lh) }
            Op::Extract => {
                let (l, h) = self.rng(st, &e.a[0], d - 1);
                let k = e.k as u32;
                if (h >> k) <= m { (l >> k, h >> k) } else { full }
            }
            Op::Add => { let (a, b) = self.rng(st, &e.a[0], d - 1); let (c, f) = self.rng(st, &e.a[1], d - 1);
                match (b.checked_add(f), a.checked_add(c)) { (Some(h), Some(l)) if h <= m => (l, h), (Some(h), Some(l)) if l > m && h - l <= m && h & m >= l & m && e.w < 128 => (l & m, h & m), _ => full } }
            Op::Sub => { let (a, b) = self.rng(st, &e.a[0], d - 1); let (c, f) = self.rng(st, &e.a[1], d - 1); if a >= f { (a - f, b - c) } else { full } }
            Op::Mul => { let (a, b) = self.rng(st, &e.a[0], d - 1); let (c, f) = self.rng(st, &e.a[1], d - 1); match b.checked_mul(f) { Some(h) if h <= m => (a * c, h), _ => full } }
            Op::Shl => { if let Some(c) = e.a[1].c() { let (a, b) = self.rng(st, &e.a[0], d - 1); if c < 64 && b < (1u128 << 64) && (b << c) <= m { return (a << c, b << c); } } full }
            Op::UDiv => { if let Some(c) = e.a[1].c() { if c > 0 { let (a, b) = self.rng(st, &e.a[0], d - 1); return (a / c, b / c); } } full }
            Op::URem => { if let Some(c) = e.a[1].c() { if c > 0 { let (a, b) = self.rng(st, &e.a[0], d - 1); return if b < c { (a, b) } else { (0, c - 1) }; } } full }
            Op::And => { let (_, b) = self.rng(st, &e.a[0], d - 1); let (_, f) = self.rng(st, &e.a[1], d - 1); (0, b.min(f)) }
            Op::Or | Op::Xor => {
                let (a, b) = self.rng(st, &e.a[0], d - 1); let (c, f) = self.rng(st, &e.a[1], d - 1);
                if f < (1u128 << tz(&e.a[0], 4).min(100)) || b < (1u128 << tz(&e.a[1], 4).min(100)) { return (a + c, b + f); }
                let hi = (b | f).checked_next_power_of_two().map_or(m, |x| if x == (b | f) { (x << 1).wrapping_sub(1) } else { x - 1 }).min(m);
                (if e.op == Op::Or { a.max(c) } else { 0 }, hi)
            }
            Op::Ite => { let (a, b) = self.rng(st, &e.a[1], d - 1); let (c, f) = self.rng(st, &e.a[2], d - 1); (a.min(c), b.max(f)) }
            _ => full,
        }
    }

    /// Decide a condition from the path's facts and domains only.
    pub fn truth3(&mut self, st: &State, e: &Ex) -> Option<bool> {
        if let Some(c) = e.c() { return Some(c != 0); }
        if let Some(b) = st.facts.get(&e.id) { return Some(*b); }
        if let Some(v) = e.single8() {
            let t = table_of(e)?;
            let dom = st.vs(v).dom;
            let (mut any_t, mut any_f) = (false, false);
            for w in 0..4 { let mut x = dom[w]; while x != 0 { let i = w * 64 + x.trailing_zeros() as usize; x &= x - 1; if t[i] != 0 { any_t = true } else { any_f = true } if any_t && any_f { return None; } } }
            let r = any_t;
            self.claim(st, e, r);
            return Some(r);
        }
        if e.w == 1 {
            match e.op {
                Op::Xor if e.a[1].c() == Some(1) => return self.truth3(st, &e.a[0]).map(|b| !b),
                Op::And => { let a = self.truth3(st, &e.a[0]); if a == Some(false) { return a; } let b = self.truth3(st, &e.a[1]); if b == Some(false) { return b; } return if a == Some(true) { b } else if b == Some(true) { a } else { None }; }
                Op::Or => { let a = self.truth3(st, &e.a[0]); if a == Some(true) { return a; } let b = self.truth3(st, &e.a[1]); if b == Some(true) { return b; } return if a == Some(false) { b } else if b == Some(false) { a } else { None }; }
                Op::Ite => { return match self.truth3(st, &e.a[0])? { true => self.truth3(st, &e.a[1]), false => self.truth3(st, &e.a[2]) }; }
                Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    let (a, b) = self.rng(st, &e.a[0], 10); let (c, d) = self.rng(st, &e.a[1], 10);
                    let h = mask(e.a[0].w) >> 1;
                    let r = match e.op {
                        Op::Eq => if b < c || d < a { Some(false) } else if a == b && c == d && a == c { Some(true) } else { None },
                        Op::Ult => if b < c { Some(true) } else if a >= d { Some(false) } else { None },
                        Op::Ule => if b <= c { Some(true) } else if a > d { Some(false) } else { None },
                        Op::Slt if b <= h && d <= h => if b < c { Some(true) } else if a >= d { Some(false) } else { None },
                        Op::Sle if b <= h && d <= h => if b <= c { Some(true) } else if a > d { Some(false) } else { None },
                        _ => None,
                    };
                    if let Some(r) = r { self.claim(st, e, r); }
                    return r;
                }
                _ => {}
            }
        }
        None
    }
    pub fn slice(&self, st: &State, vars: VarSet) -> Vec<Ex> {
        let mut vs = vars;
        let mut used = vec![false; st.multi.len()];
        let mut out = vec![];
        loop {
            let mut ch = false;
            for (i, m) in st.multi.iter().enumerate() { if !used[i] && m.vars.intersects(&vs) { used[i] = true; vs = vs.union(&m.vars); out.push(m.clone()); ch = true; } }
            if !ch { break; }
        }
        for v in vs.iter() { out.extend(st.vs(v).cons.iter().cloned()); }
        out
    }
    pub fn model_true(&self, st: &State, e: &Ex) -> bool { eval(e, &st.model, &mut HashMap::new()) != 0 }
    /// Both truth values feasible => Err(Split).
    pub fn truth(&mut self, st: &mut State, e: &Ex) -> Result<bool, Stop> {
        if let Some(b) = self.truth3(st, e) { return Ok(b); }
        if let Some(v) = e.single8() { if !st.multivars.intersects(&VarSet::single(v)) { return Err(Stop::Split(e.clone())); } }
        let mv = self.model_true(st, e);
        let other = if mv { not(e) } else { e.clone() };
        let mut q = self.slice(st, e.vars);
        q.push(other);
        match self.solver.check(&q, None) {
            Sat::Unsat => { self.learn(st, e, mv); Ok(mv) }
            Sat::Sat => Err(Stop::Split(e.clone())),
            Sat::Unknown => { self.incomplete("solver gave up on a branch; that side not explored"); self.add(st, &if mv { e.clone() } else { not(e) }); Ok(mv) }
        }
    }
    pub fn learn(&mut self, st: &mut State, e: &Ex, b: bool) {
        let f = Rc::make_mut(&mut st.facts);
        f.insert(e.id, b);
        if e.op == Op::Xor && e.w == 1 && e.a[1].c() == Some(1) { f.insert(e.a[0].id, !b); }
    }
    /// Conjoin a condition to the path (the caller guarantees the model is fixed afterwards).
    pub fn add(&mut self, st: &mut State, e: &Ex) {
        if e.c().is_some() { return; }
        if e.op == Op::And && e.w == 1 { let (a, b) = (e.a[0].clone(), e.a[1].clone()); self.add(st, &a); self.add(st, &b); self.learn(st, e, true); return; }
        if e.op == Op::Xor && e.w == 1 && e.a[1].c() == Some(1) && e.a[0].op == Op::Or { let (a, b) = (not(&e.a[0].a[0]), not(&e.a[0].a[1])); self.add(st, &a); self.add(st, &b); self.learn(st, e, true); return; }
        self.learn(st, e, true);
        if let Some(v) = e.vars.only() {
            let s = Rc::make_mut(st.vars[v as usize].as_mut().unwrap());
            s.cons.push(e.clone());
            s.fp = mix(s.fp, e.id as u64 + 1);
            if var_width(v) <= 8 { if let Some(t) = table_of(e) { for i in 0..256 { if t[i] == 0 { s.dom[i >> 6] &= !(1u64 << (i & 63)); } } } }
        } else {
            st.multi.push(e.clone());
            st.multivars = st.multivars.union(&e.vars);
        }
    }
    /// Conjoin `e` and repair the model; false if infeasible.
    pub fn constrain(&mut self, st: &mut State, e: &Ex) -> bool {
        if let Some(b) = self.truth3(st, e) { return b; }
        if self.model_true(st, e) { self.add(st, e); return true; }
        if let Some(v) = e.single8() { if !st.multivars.intersects(&VarSet::single(v)) {
            let Some(t) = table_of(e) else { return false };
            let d = st.vs(v).dom;
            let Some(i) = (0..256).find(|i| in_dom(&d, *i) && t[*i] != 0) else { return false };
            Rc::make_mut(&mut st.model).insert(v, i as u128);
            self.add(st, e);
            return true;
        } }
        let mut q = self.slice(st, e.vars);
        q.push(e.clone());
        let mut m = Model::new();
        match self.solver.check(&q, Some(&mut m)) {
            Sat::Sat => { let mm = Rc::make_mut(&mut st.model); for (k, v) in m { mm.insert(k, v); } self.add(st, e); true }
            Sat::Unsat => false,
            Sat::Unknown => { self.incomplete("solver gave up on a constraint"); false }
        }
    }
    pub fn conc(&mut self, st: &mut State, e: &Ex) -> Result<u64, Stop> {
        if let Some(c) = e.c() { return Ok(c as u64); }
        if let Some(k) = st.known.get(&e.id) { return Ok(*k); }
        let (l, h) = self.rng(st, e, 12);
        if l == h { let c = eq(e, &konst(e.w, l)); self.claim(st, &c, true); return Ok(l as u64); }
        Err(Stop::Conc(e.clone()))
    }
    /// All feasible values of `e` (bounded by `cap`; the rest is reported as not covered).
    pub fn values(&mut self, st: &State, e: &Ex, cap: usize) -> Vec<State> {
        let mut out = vec![];
        if let (Some(v), Some(t)) = (e.single8(), if e.single8().is_some() { table_of(e) } else { None }) { if !st.multivars.intersects(&VarSet::single(v)) {
            let d = st.vs(v).dom;
            let mut vals: Vec<u64> = (0..256).filter(|i| in_dom(&d, *i)).map(|i| t[i]).collect();
            vals.sort_unstable(); vals.dedup();
            for k in vals {
                let mut s = st.clone();
                let c = eq(e, &konst(e.w, k as u128));
                if self.constrain(&mut s, &c) { Rc::make_mut(&mut s.known).insert(e.id, k); out.push(s); }
            }
            return out;
        } }
        let mut rest = st.clone();
        loop {
            let k = eval(e, &rest.model, &mut HashMap::new());
            let c = eq(e, &konst(e.w, k));
            let mut s = rest.clone();
            if self.constrain(&mut s, &c) { Rc::make_mut(&mut s.known).insert(e.id, k as u64); out.push(s); }
            if !self.constrain(&mut rest, &not(&c)) { break; }
            if out.len() >= cap { self.incomplete("more feasible values than the concretization cap"); break; }
        }
        out
    }
}
fn tz(e: &Ex, d: u32) -> u32 {
    if d == 0 { return 0; }
    match e.op {
        Op::Const => if e.k == 0 { 127 } else { e.k.trailing_zeros() },
        Op::Shl => e.a[1].c().map_or(0, |c| c as u32 + tz(&e.a[0], d - 1)),
        Op::And => tz(&e.a[0], d - 1).max(tz(&e.a[1], d - 1)),
        Op::Or => tz(&e.a[0], d - 1).min(tz(&e.a[1], d - 1)),
        Op::ZExt => tz(&e.a[0], d - 1),
        Op::Concat => { let t = tz(&e.a[1], d - 1); if t >= e.a[1].w { e.a[1].w + tz(&e.a[0], d - 1) } else { t } }
        _ => 0,
    }
}
