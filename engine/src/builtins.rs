//! LLVM intrinsics, the C library surface the Rust runtime uses, and the harness intrinsics.
use crate::exec::*;
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::solve::*;
use std::rc::Rc;

macro_rules! ids { ($($n:ident),* $(,)?) => { #[allow(non_camel_case_types, dead_code, clippy::upper_case_acronyms)] #[derive(Clone, Copy, PartialEq)] #[repr(u16)] enum B { $($n),* } const ALL: &[B] = &[$(B::$n),*]; } }
ids! { Nop0, NopV, Malloc, Calloc, Realloc, Free, PosixMemalign, Memcpy, Memset, Bcmp, Memcmp, Strlen, Write, Writev, Getenv, Getcwd, Getrandom, Syscall, ClockGettime, Errno, Minus1, One,
  Abs, Bitreverse, Bswap, Ctlz, Ctpop, Cttz, Fabs, FptosiSat, FptouiSat, Fshl, Fshr, Umax, Umin, Smax, Smin, MaxNum, MinNum, SaddO, UaddO, SsubO, UsubO, SmulO, UmulO, UaddSat, UsubSat, SaddSat, SsubSat, Ucmp, Scmp, TlsAddr, Expect, Trap, IsConst,
  Floor, Ceil, TruncF, RoundF, RoundEven, Sqrt, CopySign, Fma, PowF, Sin, Cos, FModF, Psad, Pmadd, VReduceOr, VReduceAnd, VReduceAdd, CMath, StrerrorR, MemchrRust, MemrchrRust, MemchrRaw, MemchrRaw2, MemchrRaw3, HashOne, SysconfPage, PthreadSelf, Mmap, Open, Close, Read, Lseek, Stat, FStat, Statx, Unlink, Rename, Mkdir,
  SxByte, SxU16, SxU32, SxU64, SxChoose, SxAssume, SxAssert, SxReach, SxKnown, SxIsSym, SxPrint, SxFail, SxConc }

pub fn override_of(name: &str) -> Option<u16> {
    let b = if name.contains("11BuildHasher8hash_one") { B::HashOne }
    else if name.contains("4core5slice6memchr14memchr_aligned") { B::MemchrRust }
    else if name.contains("4core5slice6memchr7memrchr") { B::MemrchrRust }
    else if name.contains("6memchr10memchr_raw") { B::MemchrRaw }
    else if name.contains("6memchr11memchr2_raw") { B::MemchrRaw2 }
    else if name.contains("6memchr11memchr3_raw") { B::MemchrRaw3 }
    else { return None };
    Some(b as u16)
}
pub fn lookup(n: &str) -> Option<u16> {
    let b = match n {
        "malloc" => B::Malloc, "calloc" => B::Calloc, "realloc" => B::Realloc, "free" => B::Free, "posix_memalign" => B::PosixMemalign,
        "memcpy" | "memmove" => B::Memcpy, "memset" => B::Memset, "bcmp" => B::Bcmp, "memcmp" => B::Memcmp, "strlen" => B::Strlen,
        "write" => B::Write, "writev" => B::Writev, "getenv" | "dlsym" => B::Getenv, "getcwd" => B::Getcwd, "getrandom" => B::Getrandom, "syscall" => B::Syscall,
        "clock_gettime" => B::ClockGettime, "__errno_location" => B::Errno, "gettid" | "getpid" => B::One,
        "open64" | "open" => B::Open, "close" => B::Close, "read" => B::Read, "lseek64" | "lseek" => B::Lseek, "stat64" | "lstat64" | "stat" | "lstat" => B::Stat, "fstat64" | "fstat" => B::FStat, "statx" => B::Statx, "unlink" => B::Unlink, "rename" => B::Rename, "mkdir" => B::Mkdir,
        "readv" | "rmdir" | "unlinkat" | "access" => B::Minus1,
        "pthread_key_create" | "pthread_key_delete" | "pthread_setspecific" | "__cxa_thread_atexit_impl" | "munmap" | "sigaction" | "dl_iterate_phdr" | "pthread_mutex_lock" | "pthread_mutex_unlock" | "pthread_mutex_trylock" | "sched_yield" | "realpath" | "readlink" | "mmap64" => B::Nop0,
        "__xpg_strerror_r" => B::StrerrorR,
        "sysconf" => B::SysconfPage, "pthread_self" => B::PthreadSelf,
        "poll" => B::One,
        "abort" | "exit" | "_exit" => B::Trap,
        "sx_byte" => B::SxByte, "sx_u16" => B::SxU16, "sx_u32" => B::SxU32, "sx_u64" => B::SxU64, "sx_choose" => B::SxChoose, "sx_assume" => B::SxAssume, "sx_assert" => B::SxAssert,
        "sx_reach" => B::SxReach, "sx_known" => B::SxKnown, "sx_is_sym" => B::SxIsSym, "sx_print" => B::SxPrint, "sx_fail" => B::SxFail, "sx_conc" => B::SxConc,
        "fmod" | "fmodf" => B::FModF,
        "sin" => B::Sin, "cos" => B::Cos, "tan" | "exp" | "exp2" | "log" | "log10" | "log2" | "pow" | "atan2" | "acos" | "asin" | "atan" | "cbrt" | "hypot" | "cosf" | "sinf" | "powf" | "expf" | "logf" => B::CMath,
        _ => {
            let p = |s: &str| n.starts_with(s);
            if p("llvm.lifetime") || p("llvm.assume") || p("llvm.experimental.noalias") || p("llvm.x86.sse2.pause") || p("llvm.dbg") || p("llvm.prefetch") { B::NopV }
            else if p("llvm.memcpy") || p("llvm.memmove") { B::Memcpy } else if p("llvm.memset") { B::Memset }
            else if p("llvm.abs.") { B::Abs } else if p("llvm.bitreverse.") { B::Bitreverse } else if p("llvm.bswap.") { B::Bswap }
            else if p("llvm.ctlz.") { B::Ctlz } else if p("llvm.ctpop.") { B::Ctpop } else if p("llvm.cttz.") { B::Cttz } else if p("llvm.fabs.") { B::Fabs }
            else if p("llvm.fptosi.sat") { B::FptosiSat } else if p("llvm.fptoui.sat") { B::FptouiSat } else if p("llvm.fshl.") { B::Fshl } else if p("llvm.fshr.") { B::Fshr }
            else if p("llvm.umax.") { B::Umax } else if p("llvm.umin.") { B::Umin } else if p("llvm.smax.") { B::Smax } else if p("llvm.smin.") { B::Smin }
            else if p("llvm.maximumnum.") || p("llvm.maxnum.") { B::MaxNum } else if p("llvm.minimumnum.") || p("llvm.minnum.") { B::MinNum }
            else if p("llvm.sadd.with") { B::SaddO } else if p("llvm.uadd.with") { B::UaddO } else if p("llvm.ssub.with") { B::SsubO } else if p("llvm.usub.with") { B::UsubO } else if p("llvm.smul.with") { B::SmulO } else if p("llvm.umul.with") { B::UmulO }
            else if p("llvm.uadd.sat") { B::UaddSat } else if p("llvm.usub.sat") { B::UsubSat } else if p("llvm.sadd.sat") { B::SaddSat } else if p("llvm.ssub.sat") { B::SsubSat }
            else if p("llvm.ucmp") { B::Ucmp } else if p("llvm.scmp") { B::Scmp } else if p("llvm.threadlocal") { B::TlsAddr } else if p("llvm.expect") { B::Expect } else if p("llvm.trap") { B::Trap } else if p("llvm.is.constant") { B::IsConst }
            else if p("llvm.floor.") { B::Floor } else if p("llvm.ceil.") { B::Ceil } else if p("llvm.trunc.") { B::TruncF } else if p("llvm.round.") { B::RoundF } else if p("llvm.roundeven.") || p("llvm.rint.") || p("llvm.nearbyint.") { B::RoundEven } else if p("llvm.sqrt.") { B::Sqrt } else if p("llvm.copysign.") { B::CopySign }
            else if p("llvm.fma.") || p("llvm.fmuladd.") { B::Fma } else if p("llvm.sin.f64") { B::Sin } else if p("llvm.cos.f64") { B::Cos } else if p("llvm.pow") || p("llvm.sin") || p("llvm.cos") || p("llvm.exp") || p("llvm.log") { B::CMath }
            else if p("llvm.x86.sse2.psad") { B::Psad } else if p("llvm.vector.reduce.or") { B::VReduceOr } else if p("llvm.vector.reduce.and") { B::VReduceAnd } else if p("llvm.vector.reduce.add") { B::VReduceAdd }
            else { return None }
        }
    };
    Some(b as u16)
}

fn some(p: u64) -> Val { Val::A(Rc::new(vec![Val::I(1), Val::I(p)])) }
fn none() -> Val { Val::A(Rc::new(vec![Val::I(0), Val::I(0)])) }
fn pair(a: Val, b: Val) -> Val { Val::A(Rc::new(vec![a, b])) }

impl Mach {
    fn width_of(&self, t: TyId) -> u32 { let tt = self.m.types.borrow(); match tt.t[t as usize] { Ty::Int(w) => w, Ty::F32 => 32, Ty::Ptr | Ty::F64 => 64, Ty::Vec(_, e) => match tt.t[e as usize] { Ty::Int(w) => w, Ty::F32 => 32, _ => 64 }, _ => 64 } }
    fn input(&mut self, st: &mut State, w: u32) -> Val {
        let e = var(st.nvar, w);
        st.nvar += 1;
        let idx = e.k as u32;
        if st.vars.len() <= idx as usize { st.vars.resize(idx as usize + 1, None); }
        st.vars[idx as usize] = Some(Rc::new(VarState { dom: full_dom(w), cons: vec![], fp: (idx as u64 + 1).wrapping_mul(0x9E3779B97F4A7C15) }));
        Rc::make_mut(&mut st.model).insert(idx, 0);
        st.trace.push(In::Var(idx));
        self.maxvars = self.maxvars.max(st.nvar);
        Val::S(e)
    }
    fn fail_errno(&mut self, st: &mut State, code: u64, rty: TyId) -> R<Val> {
        let e = (st.errno as u64) << 32;
        self.store_n(st, e, 4, &Val::I(code))?;
        Ok(Val::I(mask64(self.width_of(rty))))
    }
    fn path_of(&mut self, st: &mut State, p: &Val) -> R<String> {
        let p = self.cv(st, p)?;
        let mut v = vec![];
        loop {
            let c = self.load_n(st, p + v.len() as u64, 1)?;
            let c = self.cv(st, &c)? as u8;
            if c == 0 { break; }
            v.push(c);
        }
        let s = String::from_utf8_lossy(&v).into_owned();
        Ok(if s.starts_with('/') { s } else { format!("/w/{s}") })
    }
    pub fn read_bytes(&mut self, st: &mut State, p: u64, n: usize) -> R<Bytes> {
        if n == 0 { return Ok((vec![], vec![])); }
        let (id, off) = self.at(st, p, n)?;
        Ok(st.obj(id).unwrap().slice(off, n))
    }
    fn str_of(&mut self, st: &mut State, p: &Val, n: &Val) -> R<String> {
        let (p, n) = (self.cv(st, p)?, self.cv(st, n)? as usize);
        let b = self.read_bytes(st, p, n)?;
        Ok(String::from_utf8_lossy(&b.0).into_owned())
    }
    fn memchr(&mut self, st: &mut State, needles: &[Val], p: u64, n: usize, rev: bool) -> R<Option<usize>> {
        if n == 0 { return Ok(None); }
        let (id, off) = self.at(st, p, n)?;
        let o = st.obj(id).unwrap();
        let allc = needles.iter().all(|x| matches!(x, Val::I(_)));
        if allc && !o.has_sym(off, n) {
            let ns: Vec<u8> = needles.iter().map(|x| if let Val::I(v) = x { *v as u8 } else { 0 }).collect();
            let s = &o.data[off..off + n];
            return Ok(if rev { s.iter().rposition(|b| ns.contains(b)) } else { s.iter().position(|b| ns.contains(b)) });
        }
        let bytes: Vec<Ex> = (0..n).map(|i| o.byte(off + i)).collect();
        let ns: Vec<Ex> = needles.iter().map(|x| to_ex(x, 8)).collect();
        for k in 0..n {
            let i = if rev { n - 1 - k } else { k };
            let mut c = konst(1, 0);
            for x in &ns { c = or(&c, &eq(&bytes[i], x)); }
            if self.truth(st, &c)? { return Ok(Some(i)); }
        }
        Ok(None)
    }
    pub fn builtin(&mut self, st: &mut State, b: u16, a: &[Val], args: &[(TyId, Opd)], rty: TyId) -> R<Val> {
        let b = ALL[b as usize];
        let w = args.first().map_or(64, |x| self.width_of(x.0));
        // lane-wise application of scalar intrinsics to vectors
        if let Some(Val::A(v0)) = a.first() {
            if matches!(b, B::Abs | B::Bswap | B::Ctlz | B::Ctpop | B::Cttz | B::Fabs | B::Fshl | B::Fshr | B::Umax | B::Umin | B::Smax | B::Smin | B::MaxNum | B::MinNum | B::UaddSat | B::UsubSat | B::SaddSat | B::SsubSat | B::Floor | B::Ceil | B::TruncF | B::RoundF | B::Sqrt) {
                let n = v0.len();
                let et = |m: &Mach, t: TyId| match m.m.types.borrow().t[t as usize] { Ty::Vec(_, e) => e, _ => t };
                let sargs: Vec<(TyId, Opd)> = args.iter().map(|x| (et(self, x.0), x.1.clone())).collect();
                let er = et(self, rty);
                let mut r = vec![];
                for i in 0..n { let l: Vec<Val> = a.iter().map(|x| match x { Val::A(q) => q[i].clone(), x => x.clone() }).collect(); r.push(self.builtin(st, b as u16, &l, &sargs, er)?); }
                return Ok(Val::A(Rc::new(r)));
            }
        }
        Ok(match b {
            B::Nop0 | B::NopV => Val::I(0),
            B::One | B::PthreadSelf => Val::I(1),
            B::SysconfPage => Val::I(4096),
            B::Minus1 => { let e = (st.errno as u64) << 32; self.store_n(st, e, 4, &Val::I(2))?; Val::I(mask64(self.width_of(rty))) }
            B::Mmap => Val::I(u64::MAX),
            B::Malloc | B::Calloc => {
                let mut n = self.cv(st, &a[0])?;
                if b == B::Calloc { n = n.saturating_mul(self.cv(st, &a[1])?); }
                if n > 1 << 28 { return Ok(Val::I(0)); }
                Val::I((st.heap.alloc(n as usize) as u64) << 32)
            }
            B::PosixMemalign => {
                let (p, n) = (self.cv(st, &a[0])?, self.cv(st, &a[2])?);
                if n > 1 << 28 { return Ok(Val::I(12)); }
                let r = (st.heap.alloc(n as usize) as u64) << 32;
                self.store_n(st, p, 8, &Val::I(r))?;
                Val::I(0)
            }
            B::Realloc => {
                let (p, n) = (self.cv(st, &a[0])?, self.cv(st, &a[1])?);
                if n > 1 << 28 { return Ok(Val::I(0)); }
                if p == 0 { return Ok(Val::I((st.heap.alloc(n as usize) as u64) << 32)); }
                let id = (p >> 32) as u32;
                let Some(o) = st.obj_mut(id) else { return Err(Stop::Panic(format!("realloc of invalid pointer {p:#x}"))) };
                let old = o.data.len();
                if (n as usize) < old { o.clear_sym(n as usize, old - n as usize); }
                o.data.resize(n as usize, 0);
                Val::I(p)
            }
            B::Free => { let p = self.cv(st, &a[0])?; if p != 0 { let id = (p >> 32) as u32; if id <= self.nsyms || st.heap.get(id).is_none() { return Err(Stop::Panic("free of invalid pointer".into())); } st.heap.free(id); } Val::I(0) }
            B::Memcpy => {
                let n = self.cv(st, &a[2])? as usize;
                let (d, s) = (self.cv(st, &a[0])?, self.cv(st, &a[1])?);
                if n == 0 || d == s { return Ok(Val::I(d)); }
                let (sid, so) = self.at(st, s, n)?;
                let (did, dof) = self.at(st, d, n)?;
                let ob = st.obj(sid).unwrap();
                if n <= 8 && !ob.has_sym(so, n) { let x = ob.read_u(so, n); let o = st.obj_mut(did).unwrap(); if o.ro { return Err(Stop::Panic("write to constant".into())); } o.write_u(dof, n, x); return Ok(Val::I(d)); }
                let bs = ob.slice(so, n);
                let o = st.obj_mut(did).unwrap();
                if o.ro { return Err(Stop::Panic("write to constant".into())); }
                o.put(dof, &bs);
                Val::I(d)
            }
            B::Memset => {
                let n = self.cv(st, &a[2])? as usize;
                let d = self.cv(st, &a[0])?;
                if n == 0 { return Ok(Val::I(d)); }
                let (did, dof) = self.at(st, d, n)?;
                match &a[1] {
                    Val::I(x) => { let x = *x as u8; let o = st.obj_mut(did).unwrap(); o.clear_sym(dof, n); o.data[dof..dof + n].fill(x); }
                    v => { let e = to_ex(v, 8); let e = extract(&e, 0, 8); let o = st.obj_mut(did).unwrap(); for i in 0..n { o.set_sym(dof + i, e.clone()); } }
                }
                Val::I(d)
            }
            B::Bcmp | B::Memcmp => {
                let n = self.cv(st, &a[2])? as usize;
                let (p, q) = (self.cv(st, &a[0])?, self.cv(st, &a[1])?);
                if n == 0 || p == q { return Ok(Val::I(0)); }
                let (i1, o1) = self.at(st, p, n)?;
                let (i2, o2) = self.at(st, q, n)?;
                let (x, y) = (st.obj(i1).unwrap(), st.obj(i2).unwrap());
                if !x.has_sym(o1, n) && !y.has_sym(o2, n) {
                    let r = x.data[o1..o1 + n].cmp(&y.data[o2..o2 + n]) as i32;
                    return Ok(Val::I(r as u32 as u64));
                }
                let (bx, by): (Vec<Ex>, Vec<Ex>) = ((0..n).map(|i| x.byte(o1 + i)).collect(), (0..n).map(|i| y.byte(o2 + i)).collect());
                if b == B::Bcmp {
                    // any concrete difference decides
                    if bx.iter().zip(&by).any(|(x, y)| x.c().is_some() && y.c().is_some() && x.k != y.k) { return Ok(Val::I(1)); }
                    let mut c = konst(1, 1);
                    for i in 0..n {
                        let e = eq(&bx[i], &by[i]);
                        match self.truth3(st, &e) { Some(false) => return Ok(Val::I(1)), Some(true) => {} None => c = and(&c, &e) }
                    }
                    let e = mk(Op::ZExt, 32, vec![not(&c)]);
                    return Ok(self.simp(st, e));
                }
                let mut r = konst(32, 0);
                for i in (0..n).rev() {
                    let (e, l) = (eq(&bx[i], &by[i]), mk(Op::Ult, 1, vec![bx[i].clone(), by[i].clone()]));
                    let d = ite(&l, &konst(32, u32::MAX as u128), &konst(32, 1));
                    r = ite(&e, &r, &d);
                }
                self.simp(st, r)
            }
            B::Strlen => { let p = self.cv(st, &a[0])?; let mut n = 0; loop { let v = self.load_n(st, p + n, 1)?; match v { Val::I(0) => break, Val::I(_) => {} Val::S(e) => { if self.truth(st, &eq(&e, &konst(8, 0)))? { break; } } _ => break } n += 1; } Val::I(n) }
            B::Write => {
                let (fd, p, n) = (self.cv(st, &a[0])? as usize, self.cv(st, &a[1])?, self.cv(st, &a[2])? as usize);
                let Some(Some((name, pos))) = st.fds.get(fd).cloned() else { return Ok(a[2].clone()) };
                let bs = self.read_bytes(st, p, n)?;
                let f = Rc::make_mut(&mut st.files).entry(name.clone()).or_insert_with(|| Rc::new(Obj::new(0)));
                let o = Rc::make_mut(f);
                if o.data.len() < pos + n { o.data.resize(pos + n, 0); }
                o.put(pos, &bs);
                Rc::make_mut(&mut st.fds)[fd] = Some((name, pos + n));
                a[2].clone()
            }
            B::Open => {
                let (name, fl) = (self.path_of(st, &a[0])?, self.cv(st, &a[1])?);
                if name.ends_with("/dev/urandom") || name.ends_with("/dev/random") {
                    if !st.files.contains_key(&name) {
                        // a fixed stream: randomness is not an input of any property
                        let mut o = Obj::new(1 << 16);
                        for i in 0..o.data.len() { o.data[i] = (i as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(29) as u8; }
                        Rc::make_mut(&mut st.files).insert(name.clone(), Rc::new(o));
                    }
                }
                let there = st.files.contains_key(&name);
                if !there && fl & 0o100 == 0 { return self.fail_errno(st, 2, rty); }
                if there && fl & 0o300 == 0o300 { return self.fail_errno(st, 17, rty); }
                if !there || fl & 0o1000 != 0 { Rc::make_mut(&mut st.files).insert(name.clone(), Rc::new(Obj::new(0))); }
                let pos = if fl & 0o2000 != 0 { st.files[&name].data.len() } else { 0 };
                let fds = Rc::make_mut(&mut st.fds);
                while fds.len() < 3 { fds.push(None); }
                let fd = (3..fds.len()).find(|&i| fds[i].is_none()).unwrap_or_else(|| { fds.push(None); fds.len() - 1 });
                fds[fd] = Some((name, pos));
                Val::I(fd as u64)
            }
            B::Close => { let fd = self.cv(st, &a[0])? as usize; if fd < st.fds.len() { Rc::make_mut(&mut st.fds)[fd] = None; } Val::I(0) }
            B::Read => {
                let (fd, p, n) = (self.cv(st, &a[0])? as usize, self.cv(st, &a[1])?, self.cv(st, &a[2])? as usize);
                let Some(Some((name, pos))) = st.fds.get(fd).cloned() else { return self.fail_errno(st, 9, rty) };
                let Some(f) = st.files.get(&name).cloned() else { return self.fail_errno(st, 9, rty) };
                let k = n.min(f.data.len().saturating_sub(pos));
                if k > 0 {
                    let bs = f.slice(pos, k);
                    let (did, dof) = self.at(st, p, k)?;
                    st.obj_mut(did).unwrap().put(dof, &bs);
                    Rc::make_mut(&mut st.fds)[fd] = Some((name, pos + k));
                }
                Val::I(k as u64)
            }
            B::Lseek => {
                let (fd, o, wh) = (self.cv(st, &a[0])? as usize, self.cv(st, &a[1])? as i64, self.cv(st, &a[2])?);
                let Some(Some((name, pos))) = st.fds.get(fd).cloned() else { return self.fail_errno(st, 29, rty) };
                let len = st.files.get(&name).map_or(0, |f| f.data.len());
                let t = match wh { 0 => o, 1 => pos as i64 + o, _ => len as i64 + o };
                if t < 0 { return self.fail_errno(st, 22, rty); }
                Rc::make_mut(&mut st.fds)[fd] = Some((name, t as usize));
                Val::I(t as u64)
            }
            B::Stat | B::FStat | B::Statx => {
                if b == B::Statx && self.cv(st, &a[1])? == 0 { return self.fail_errno(st, 14, rty); }
                let name = match b {
                    B::Stat => self.path_of(st, &a[0])?,
                    B::FStat => { let fd = self.cv(st, &a[0])? as usize; match st.fds.get(fd) { Some(Some(x)) => x.0.clone(), _ => return self.fail_errno(st, 9, rty) } }
                    _ => {
                        let fd = self.cv(st, &a[0])? as usize;
                        let p = self.path_of(st, &a[1])?;
                        if p == "/w/" { match st.fds.get(fd) { Some(Some(x)) => x.0.clone(), _ => return self.fail_errno(st, 9, rty) } } else { p }
                    }
                };
                let Some(f) = st.files.get(&name).cloned() else { return self.fail_errno(st, 2, rty) };
                let len = f.data.len() as u64;
                let buf = self.cv(st, &a[if b == B::Statx { 4 } else { 1 }])?;
                if b == B::Statx {
                    for i in 0..32 { self.store_n(st, buf + i * 8, 8, &Val::I(0))?; }
                    self.store_n(st, buf, 4, &Val::I(0x7ff))?;
                    self.store_n(st, buf + 28, 2, &Val::I(0o100644))?;
                    self.store_n(st, buf + 40, 8, &Val::I(len))?;
                } else {
                    for i in 0..18 { self.store_n(st, buf + i * 8, 8, &Val::I(0))?; }
                    self.store_n(st, buf + 24, 4, &Val::I(0o100644))?;
                    self.store_n(st, buf + 48, 8, &Val::I(len))?;
                }
                Val::I(0)
            }
            B::Unlink => { let n = self.path_of(st, &a[0])?; if Rc::make_mut(&mut st.files).remove(&n).is_none() { return self.fail_errno(st, 2, rty); } Val::I(0) }
            B::Rename => {
                let (x, y) = (self.path_of(st, &a[0])?, self.path_of(st, &a[1])?);
                match Rc::make_mut(&mut st.files).remove(&x) { Some(o) => { Rc::make_mut(&mut st.files).insert(y, o); Val::I(0) } None => return self.fail_errno(st, 2, rty) }
            }
            B::Mkdir => Val::I(0),
            B::Writev => { let (p, n) = (self.cv(st, &a[1])?, self.cv(st, &a[2])?); let mut t = 0; for i in 0..n { if let Val::I(x) = self.load_n(st, p + 16 * i + 8, 8)? { t += x; } } Val::I(t) }
            B::Getenv => Val::I(0),
            B::Getcwd => { let p = self.cv(st, &a[0])?; for (i, c) in b"/w\0".iter().enumerate() { self.store_n(st, p + i as u64, 1, &Val::I(*c as u64))?; } Val::I(p) }
            B::Getrandom => { let (p, n) = (self.cv(st, &a[0])?, self.cv(st, &a[1])?); for i in 0..n { self.store_n(st, p + i, 1, &Val::I(7))?; } Val::I(n) }
            B::Syscall => {
                let k = self.cv(st, &a[0])?;
                if k == 318 { let (p, n) = (self.cv(st, &a[1])?, self.cv(st, &a[2])?); for i in 0..n { self.store_n(st, p + i, 1, &Val::I(7))?; } return Ok(Val::I(n)); }
                Val::I(u64::MAX)
            }
            B::ClockGettime => { let p = self.cv(st, &a[1])?; self.store_n(st, p, 8, &Val::I(1_700_000_000))?; self.store_n(st, p + 8, 8, &Val::I(0))?; Val::I(0) }
            B::Errno => Val::I((st.errno as u64) << 32),
            B::StrerrorR => { let p = self.cv(st, &a[1])?; for (i, c) in b"err\0".iter().enumerate() { self.store_n(st, p + i as u64, 1, &Val::I(*c as u64))?; } Val::I(0) }
            B::TlsAddr | B::Expect => a[0].clone(),
            B::IsConst => Val::I(0),
            B::Trap => return Err(Stop::Panic("abort".into())),
            B::Abs => { let z = Val::I(0); let n = self.icmp(st, Pred::Slt, w, &a[0], &z)?; let m = self.bin(st, Bin::Sub, w, &z, &a[0])?; self.select(st, rty, &n, &m, &a[0])? }
            B::Umax | B::Umin | B::Smax | B::Smin => {
                let p = match b { B::Umax => Pred::Ugt, B::Umin => Pred::Ult, B::Smax => Pred::Sgt, _ => Pred::Slt };
                let c = self.icmp(st, p, w, &a[0], &a[1])?;
                self.select(st, rty, &c, &a[0], &a[1])?
            }
            B::Ucmp | B::Scmp => {
                let rw = self.width_of(rty);
                let (pl, pg) = if b == B::Ucmp { (Pred::Ult, Pred::Ugt) } else { (Pred::Slt, Pred::Sgt) };
                let l = self.icmp(st, pl, w, &a[0], &a[1])?;
                let g = self.icmp(st, pg, w, &a[0], &a[1])?;
                let r = self.select(st, rty, &g, &Val::I(1), &Val::I(0))?;
                self.select(st, rty, &l, &Val::I(mask64(rw)), &r)?
            }
            B::Bswap => match &a[0] {
                Val::I(x) => Val::I(x.swap_bytes() >> (64 - w)),
                v => { let e = to_ex(v, w); let mut r = extract(&e, 0, 8); for i in 1..w / 8 { r = concat(&r, &extract(&e, i * 8, 8)); } self.simp(st, r) }
            },
            B::Bitreverse => { let x = self.cv(st, &a[0])?; Val::I(x.reverse_bits() >> (64 - w)) }
            B::Ctpop | B::Ctlz | B::Cttz => match &a[0] {
                Val::I(x) => Val::I(match b { B::Ctpop => x.count_ones() as u64, B::Ctlz => (x.leading_zeros() - (64 - w)) as u64, _ => if *x == 0 { w as u64 } else { x.trailing_zeros() as u64 } }),
                v => {
                    let e = to_ex(v, w);
                    if let (Some(t), Some(vx)) = (if e.single8().is_some() { table_of(&e) } else { None }, e.single8()) {
                        let mut o = [0u64; 256];
                        for i in 0..256 { let x = t[i]; o[i] = match b { B::Ctpop => x.count_ones() as u64, B::Ctlz => (x.leading_zeros() - (64 - w)) as u64, _ => if x == 0 { w as u64 } else { x.trailing_zeros() as u64 } }; }
                        let r = table(&var_ex(vx), w, o);
                        return Ok(self.simp(st, r));
                    }
                    // bit by bit
                    let bit = |i: u32| extract(&e, i, 1);
                    let mut r;
                    match b {
                        B::Ctpop => { r = konst(w, 0); for i in 0..w { r = mk(Op::Add, w, vec![r, mk(Op::ZExt, w, vec![bit(i)])]); } }
                        B::Ctlz => { r = konst(w, w as u128); for i in 0..w { r = ite(&bit(i), &konst(w, (w - 1 - i) as u128), &r); } }
                        _ => { r = konst(w, w as u128); for i in (0..w).rev() { r = ite(&bit(i), &konst(w, i as u128), &r); } }
                    }
                    self.simp(st, r)
                }
            },
            B::Fshl | B::Fshr => {
                let s = self.cv(st, &a[2])? % w as u64;
                if s == 0 { return Ok(if b == B::Fshl { a[0].clone() } else { a[1].clone() }); }
                let l = if b == B::Fshl { s } else { w as u64 - s };
                let x = self.bin(st, Bin::Shl, w, &a[0], &Val::I(l))?;
                let y = self.bin(st, Bin::LShr, w, &a[1], &Val::I(w as u64 - l))?;
                self.bin(st, Bin::Or, w, &x, &y)?
            }
            B::SaddO | B::UaddO | B::SsubO | B::UsubO | B::SmulO | B::UmulO => {
                if let (Val::I(x), Val::I(y)) = (&a[0], &a[1]) {
                    let (x, y) = (*x, *y);
                    let m = mask64(w);
                    let s = |v: u64| sext(v as u128, w);
                    let (r, o) = match b {
                        B::UaddO => { let t = x as u128 + y as u128; (t as u64 & m, t > m as u128) }
                        B::UsubO => (x.wrapping_sub(y) & m, x < y),
                        B::UmulO => { let t = x as u128 * y as u128; (t as u64 & m, t > m as u128) }
                        _ => { let t = match b { B::SaddO => s(x) + s(y), B::SsubO => s(x) - s(y), _ => s(x) * s(y) }; let q = t as u64 & m; (q, s(q) != t) }
                    };
                    return Ok(pair(Val::I(r), Val::I(o as u64)));
                }
                let (x, y) = (to_ex(&a[0], w), to_ex(&a[1], w));
                let (op, signed) = match b { B::SaddO => (Op::Add, true), B::UaddO => (Op::Add, false), B::SsubO => (Op::Sub, true), B::UsubO => (Op::Sub, false), B::SmulO => (Op::Mul, true), _ => (Op::Mul, false) };
                let r = mk(op, w, vec![x.clone(), y.clone()]);
                let o = if b == B::UsubO { mk(Op::Ult, 1, vec![x, y]) }
                    else if b == B::UaddO { mk(Op::Ult, 1, vec![r.clone(), x]) }
                    else {
                        let ww = if op == Op::Mul { 2 * w } else { w + 1 };
                        if ww > 128 { return Err(Stop::Unsup("wide overflow arithmetic".into())); }
                        let ex = if signed { Op::SExt } else { Op::ZExt };
                        let t = mk(op, ww, vec![mk(ex, ww, vec![x]), mk(ex, ww, vec![y])]);
                        not(&eq(&t, &mk(ex, ww, vec![extract(&t, 0, w)])))
                    };
                // without wrap-around possible, state the overflow bit in a form range analysis settles
                let o = if b == B::UaddO { let (x, y) = (to_ex(&a[0], w), to_ex(&a[1], w)); if w < 127 { mk(Op::Ult, 1, vec![konst(w + 1, mask(w)), mk(Op::Add, w + 1, vec![mk(Op::ZExt, w + 1, vec![x]), mk(Op::ZExt, w + 1, vec![y])])]) } else { o } } else { o };
                let r = self.simp(st, r);
                let o = self.simp(st, o);
                pair(r, o)
            }
            B::UaddSat | B::UsubSat => {
                let r = self.bin(st, if b == B::UaddSat { Bin::Add } else { Bin::Sub }, w, &a[0], &a[1])?;
                let o = if b == B::UaddSat { self.icmp(st, Pred::Ult, w, &r, &a[0])? } else { self.icmp(st, Pred::Ult, w, &a[0], &a[1])? };
                self.select(st, rty, &o, &Val::I(if b == B::UaddSat { mask64(w) } else { 0 }), &r)?
            }
            B::SaddSat | B::SsubSat => {
                let (x, y) = (to_ex(&a[0], w), to_ex(&a[1], w));
                let ww = w + 1;
                let t = mk(if b == B::SaddSat { Op::Add } else { Op::Sub }, ww, vec![mk(Op::SExt, ww, vec![x]), mk(Op::SExt, ww, vec![y])]);
                let lo = konst(ww, (-(1i128 << (w - 1))) as u128); let hi = konst(ww, (1u128 << (w - 1)) - 1);
                let r = ite(&mk(Op::Slt, 1, vec![t.clone(), lo.clone()]), &lo, &ite(&mk(Op::Slt, 1, vec![hi.clone(), t.clone()]), &hi, &t));
                self.simp(st, extract(&r, 0, w))
            }
            B::Fabs => self.bin(st, Bin::And, w, &a[0], &Val::I(mask64(w) >> 1))?,
            B::CopySign => { let s = 1u64 << (w - 1); let x = self.bin(st, Bin::And, w, &a[0], &Val::I(s - 1))?; let y = self.bin(st, Bin::And, w, &a[1], &Val::I(s))?; self.bin(st, Bin::Or, w, &x, &y)? }
            B::FptosiSat => { let e = mk(Op::FPToSISat, self.width_of(rty), vec![to_ex(&a[0], w)]); self.simp(st, e) }
            B::FptouiSat => { let e = mk(Op::FPToUISat, self.width_of(rty), vec![to_ex(&a[0], w)]); self.simp(st, e) }
            B::MaxNum | B::MinNum => { let e = mk(if b == B::MaxNum { Op::FMax } else { Op::FMin }, w, vec![to_ex(&a[0], w), to_ex(&a[1], w)]); self.simp(st, e) }
            B::Floor | B::Ceil | B::TruncF | B::RoundF | B::RoundEven | B::Sqrt => {
                let op = match b { B::Floor => Op::FFloor, B::Ceil => Op::FCeil, B::TruncF => Op::FTrunc, B::RoundF => Op::FRoundAway, B::RoundEven => Op::FRoundEven, _ => Op::FSqrt };
                let e = mk(op, w, vec![to_ex(&a[0], w)]);
                self.simp(st, e)
            }
            B::Fma => { let t = self.bin(st, Bin::FMul, w, &a[0], &a[1])?; self.bin(st, Bin::FAdd, w, &t, &a[2])? }
            B::FModF => self.bin(st, Bin::FRem, w, &a[0], &a[1])?,
            B::VReduceOr | B::VReduceAnd | B::VReduceAdd => { let Val::A(v) = &a[0] else { return Err(Stop::Unsup("reduce".into())) }; let v = v.clone(); let mut r = v[0].clone(); for x in &v[1..] { r = self.bin(st, match b { B::VReduceOr => Bin::Or, B::VReduceAnd => Bin::And, _ => Bin::Add }, w, &r, x)?; } r }
            B::HashOne => Val::I(0),
            B::MemchrRust | B::MemrchrRust => {
                let (p, n) = (self.cv(st, &a[1])?, self.cv(st, &a[2])? as usize);
                match self.memchr(st, &a[..1], p, n, b == B::MemrchrRust)? { Some(i) => some(i as u64), None => none() }
            }
            B::MemchrRaw | B::MemchrRaw2 | B::MemchrRaw3 => {
                let k = match b { B::MemchrRaw => 1, B::MemchrRaw2 => 2, _ => 3 };
                let (p, e) = (self.cv(st, &a[k])?, self.cv(st, &a[k + 1])?);
                match self.memchr(st, &a[..k], p, e.saturating_sub(p) as usize, false)? { Some(i) => some(p + i as u64), None => none() }
            }
            // The trigonometric functions of the C library, of known arguments
            B::Sin | B::Cos if matches!(a[0], Val::I(_)) => { let Val::I(x) = a[0] else { unreachable!() }; let x = f64::from_bits(x); Val::I(if b == B::Sin { x.sin() } else { x.cos() }.to_bits()) }
            B::Sin | B::Cos | B::CMath | B::PowF | B::Psad | B::Pmadd => return Err(Stop::Unsup("math library call".into())),
            // ---- harness intrinsics ----
            B::SxByte => self.input(st, 8),
            B::SxU16 => self.input(st, 16),
            B::SxU32 => self.input(st, 32),
            B::SxU64 => self.input(st, 64),
            B::SxChoose => {
                let n = self.cv(st, &a[0])?;
                match st.chosen.take() { Some(k) => { st.trace.push(In::Const(k)); Val::I(k) } None => if n <= 1 { st.trace.push(In::Const(0)); Val::I(0) } else { return Err(Stop::Choose(n)) } }
            }
            B::SxAssume => match &a[0] {
                Val::I(x) => { if x & 1 == 0 { return Err(Stop::Kill); } Val::I(0) }
                Val::S(e) => { let e = e.clone(); if !self.constrain(st, &e) { return Err(Stop::Kill); } Val::I(0) }
                _ => Val::I(0),
            },
            B::SxAssert => {
                self.asserts += 1;
                match &a[0] {
                    Val::I(x) => { if x & 1 == 0 { let msg = self.str_of(st, &a[1], &a[2])?; let m = st.model.clone(); self.report(st, &m, "assert", msg); return Err(Stop::Kill); } }
                    Val::S(e) => {
                        self.asserts_sym += 1;
                        let e = e.clone();
                        match self.truth3(st, &e) {
                            Some(true) => {}
                            _ => {
                                self.asserts_solver += 1;
                                let mut q = self.slice(st, e.vars);
                                q.push(not(&e));
                                let mut m = Model::new();
                                match self.solver.check(&q, Some(&mut m)) {
                                    crate::z3::Sat::Unsat => { self.learn(st, &e, true); }
                                    crate::z3::Sat::Unknown => { let msg = self.str_of(st, &a[1], &a[2])?; self.incomplete(&format!("solver gave up on assertion: {msg}")); }
                                    crate::z3::Sat::Sat => {
                                        let msg = self.str_of(st, &a[1], &a[2])?;
                                        let mut full = (*st.model).clone();
                                        for (k, v) in m { full.insert(k, v); }
                                        self.report(st, &full, "assert", msg);
                                        if !self.constrain(st, &e) { return Err(Stop::Kill); }
                                    }
                                }
                            }
                        }
                    }
                    _ => {}
                }
                Val::I(0)
            }
            B::SxFail => { self.asserts += 1; let msg = self.str_of(st, &a[0], &a[1])?; let m = st.model.clone(); self.report(st, &m, "assert", msg); return Err(Stop::Kill); }
            B::SxReach => { let k = self.cv(st, &a[0])? as u32; *self.reach.entry(k).or_insert(0) += 1; Val::I(0) }
            B::SxKnown => { st.kf = self.cv(st, &a[0])? as u32; Val::I(0) }
            B::SxConc => { let x = self.cv(st, &a[0])?; Val::I(x) }
            B::SxIsSym => Val::I(1),
            B::SxPrint => {
                let (p, n) = (self.cv(st, &a[0])?, self.cv(st, &a[1])? as usize);
                let bs = self.read_bytes(st, p, n)?;
                let mut d = bs.0.clone();
                for (k, e) in &bs.1 { d[*k as usize] = eval(e, &st.model, &mut Default::default()) as u8; }
                eprintln!("[sx_print] {}  (sym bytes {})", String::from_utf8_lossy(&d), bs.1.len());
                Val::I(0)
            }
        })
    }
}
