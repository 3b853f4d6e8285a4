//! Byte-addressed memory: copy-on-write objects in copy-on-write pages.
use crate::expr::*;
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone)]
pub struct Obj { pub data: Vec<u8>, pub sym: Option<Box<BTreeMap<u32, Ex>>>, pub ro: bool }
impl Obj {
    pub fn new(n: usize) -> Obj { Obj { data: vec![0; n], sym: None, ro: false } }
    #[inline]
    pub fn has_sym(&self, off: usize, n: usize) -> bool {
        match &self.sym { None => false, Some(m) => m.range(off as u32..(off + n) as u32).next().is_some() }
    }
    pub fn byte(&self, off: usize) -> Ex {
        if let Some(m) = &self.sym { if let Some(e) = m.get(&(off as u32)) { return e.clone(); } }
        konst(8, self.data[off] as u128)
    }
    pub fn clear_sym(&mut self, off: usize, n: usize) {
        let mut empty = false;
        if let Some(m) = &mut self.sym {
            let ks: Vec<u32> = m.range(off as u32..(off + n) as u32).map(|x| *x.0).collect();
            for k in ks { m.remove(&k); }
            empty = m.is_empty();
        }
        if empty { self.sym = None; }
    }
    pub fn set_sym(&mut self, off: usize, e: Ex) {
        if let Some(c) = e.c() { self.clear_sym(off, 1); self.data[off] = c as u8; return; }
        self.sym.get_or_insert_with(Default::default).insert(off as u32, e);
    }
    /// Little-endian expression of `n` bytes.
    pub fn read_ex(&self, off: usize, n: usize) -> Ex {
        let mut e = self.byte(off + n - 1);
        for i in (0..n - 1).rev() { e = concat(&e, &self.byte(off + i)); }
        e
    }
    pub fn write_ex(&mut self, off: usize, n: usize, e: &Ex) {
        for i in 0..n { self.set_sym(off + i, extract(e, i as u32 * 8, 8)); }
    }
    #[inline]
    pub fn read_u(&self, off: usize, n: usize) -> u64 {
        let mut b = [0u8; 8];
        b[..n].copy_from_slice(&self.data[off..off + n]);
        u64::from_le_bytes(b)
    }
    #[inline]
    pub fn write_u(&mut self, off: usize, n: usize, v: u64) {
        if self.sym.is_some() { self.clear_sym(off, n); }
        self.data[off..off + n].copy_from_slice(&v.to_le_bytes()[..n]);
    }
}
pub type Bytes = (Vec<u8>, Vec<(u32, Ex)>);
impl Obj {
    pub fn slice(&self, off: usize, n: usize) -> Bytes {
        let s = match &self.sym { None => vec![], Some(m) => m.range(off as u32..(off + n) as u32).map(|(k, v)| (*k - off as u32, v.clone())).collect() };
        (self.data[off..off + n].to_vec(), s)
    }
    pub fn put(&mut self, off: usize, b: &Bytes) {
        self.clear_sym(off, b.0.len());
        self.data[off..off + b.0.len()].copy_from_slice(&b.0);
        for (k, e) in &b.1 { self.set_sym(off + *k as usize, e.clone()); }
    }
}

pub const PG: u32 = 256;
#[derive(Clone)]
pub struct Heap { pub pages: Vec<Option<Rc<Vec<Option<Rc<Obj>>>>>>, pub next: u32 }
impl Heap {
    #[inline]
    pub fn get(&self, id: u32) -> Option<&Rc<Obj>> {
        self.pages.get((id / PG) as usize)?.as_ref()?[(id % PG) as usize].as_ref()
    }
    #[inline]
    pub fn get_mut(&mut self, id: u32) -> Option<&mut Obj> {
        let p = self.pages.get_mut((id / PG) as usize)?.as_mut()?;
        Rc::make_mut(p)[(id % PG) as usize].as_mut().map(Rc::make_mut)
    }
    pub fn put(&mut self, id: u32, o: Option<Rc<Obj>>) {
        let i = (id / PG) as usize;
        if self.pages.len() <= i { self.pages.resize(i + 1, None); }
        let p = self.pages[i].get_or_insert_with(|| Rc::new(vec![None; PG as usize]));
        Rc::make_mut(p)[(id % PG) as usize] = o;
    }
    pub fn alloc(&mut self, n: usize) -> u32 {
        let id = self.next;
        self.next += 1;
        self.put(id, Some(Rc::new(Obj::new(n))));
        id
    }
    pub fn free(&mut self, id: u32) {
        self.put(id, None);
        if id % PG == PG - 1 {
            // a completed page with nothing left in it
            let i = (id / PG) as usize;
            if self.pages[i].as_ref().map_or(false, |p| p.iter().all(|x| x.is_none())) { self.pages[i] = None; }
        }
    }
}
