//! Copy-on-write object memory with per-byte symbolic contents.
use crate::expr::*;
use std::collections::HashMap;
use std::hash::BuildHasherDefault;
use std::rc::Rc;
#[derive(Clone)]
pub struct Obj {
    pub b: Vec<u8>,
    pub sym: Option<Box<HashMap<u32, (N, u8), BuildHasherDefault<Fx>>>>,
}
impl Obj {
    pub fn new(n: usize) -> Obj {
        Obj { b: vec![0; n], sym: None }
    }
    pub fn read(&self, ex: &mut Exprs, off: usize, n: usize) -> Val {
        if self.sym.is_none() {
            let mut k = 0u128;
            match n {
                1 => k = self.b[off] as u128,
                8 => k = u64::from_le_bytes(self.b[off..off + 8].try_into().unwrap()) as u128,
                4 => k = u32::from_le_bytes(self.b[off..off + 4].try_into().unwrap()) as u128,
                _ => for i in (0..n).rev() { k = (k << 8) | self.b[off + i] as u128; },
            }
            return Val::C(k);
        }
        let s = self.sym.as_ref().unwrap();
        let mut any = false;
        for i in 0..n { if s.contains_key(&((off + i) as u32)) { any = true; break; } }
        if !any {
            let mut k = 0u128;
            for i in (0..n).rev() { k = (k << 8) | self.b[off + i] as u128; }
            return Val::C(k);
        }
        // assemble, low byte first; runs of consecutive bytes of one node become one extract
        let mut acc: Option<N> = None;
        let mut i = 0;
        while i < n {
            let piece = match s.get(&((off + i) as u32)) {
                Some(&(nd, bi)) => {
                    let mut j = 1;
                    while i + j < n && s.get(&((off + i + j) as u32)) == Some(&(nd, bi + j as u8)) { j += 1; }
                    let w = ex.w(nd);
                    let nd8 = if w % 8 != 0 { ex.zext(nd, (w + 7) / 8 * 8) } else { nd };
                    i += j;
                    ex.extract(nd8, bi as u32 * 8, j as u32 * 8)
                }
                None => {
                    let mut k = 0u128;
                    let mut j = 0;
                    while i + j < n && !s.contains_key(&((off + i + j) as u32)) { k |= (self.b[off + i + j] as u128) << (8 * j); j += 1; }
                    i += j;
                    ex.konst(k, j as u32 * 8)
                }
            };
            acc = Some(match acc { None => piece, Some(a) => ex.concat(piece, a) });
        }
        ex.v(acc.unwrap())
    }
    pub fn write(&mut self, off: usize, n: usize, v: &Val) {
        match v {
            Val::C(k) => {
                if let Some(s) = &mut self.sym {
                    for i in 0..n { s.remove(&((off + i) as u32)); }
                    if s.is_empty() { self.sym = None; }
                }
                for i in 0..n { self.b[off + i] = (k >> (8 * i)) as u8; }
            }
            Val::S(nd) => {
                let s = self.sym.get_or_insert_with(Default::default);
                for i in 0..n { s.insert((off + i) as u32, (*nd, i as u8)); }
            }
            _ => panic!("agg write"),
        }
    }
}
const CH: usize = 64;
pub type Chunk = Vec<Option<Rc<Obj>>>;
#[derive(Clone)]
pub enum FreeList {
    Nil,
    Cons(Rc<(u32, FreeList)>),
}
#[derive(Clone)]
pub struct Mem {
    chunks: Vec<Rc<Chunk>>,
    free: FreeList,
    next: u32,
    pub live: u32,
}
impl Mem {
    pub fn new() -> Mem {
        Mem { chunks: vec![], free: FreeList::Nil, next: 1, live: 0 }
    }
    pub fn alloc(&mut self, size: usize) -> u64 {
        let id = match std::mem::replace(&mut self.free, FreeList::Nil) {
            FreeList::Nil => { let i = self.next; self.next += 1; i }
            FreeList::Cons(c) => { let id = c.0; self.free = match Rc::try_unwrap(c) { Ok((_, t)) => t, Err(c) => c.1.clone() }; id }
        };
        let ci = id as usize / CH;
        while self.chunks.len() <= ci { self.chunks.push(Rc::new(vec![None; CH])); }
        Rc::make_mut(&mut self.chunks[ci])[id as usize % CH] = Some(Rc::new(Obj::new(size)));
        self.live += 1;
        (id as u64) << 32
    }
    pub fn free(&mut self, id: u32) -> bool {
        let ci = id as usize / CH;
        if ci >= self.chunks.len() { return false; }
        let slot = &mut Rc::make_mut(&mut self.chunks[ci])[id as usize % CH];
        if slot.is_none() { return false; }
        *slot = None;
        self.live -= 1;
        let t = std::mem::replace(&mut self.free, FreeList::Nil);
        self.free = FreeList::Cons(Rc::new((id, t)));
        true
    }
    #[inline]
    pub fn get(&self, id: u32) -> Option<&Rc<Obj>> {
        self.chunks.get(id as usize / CH).and_then(|c| c[id as usize % CH].as_ref())
    }
    #[inline]
    pub fn get_mut(&mut self, id: u32) -> Option<&mut Obj> {
        let ci = id as usize / CH;
        if ci >= self.chunks.len() { return None; }
        Rc::make_mut(&mut self.chunks[ci])[id as usize % CH].as_mut().map(Rc::make_mut)
    }
}
