//! Object-granular memory with per-byte symbolic contents and persistent tables.
use crate::term::*;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Val { C(u128), S(T), A(Rc<Vec<Val>>), U }
impl Val {
    pub fn t(t: T) -> Val { match is_const(t) { Some(k) => Val::C(k), None => Val::S(t) } }
    pub fn term(&self, w: u16) -> T { match self { Val::C(v) => cst(w, *v), Val::S(t) => *t, Val::U => cst(w, 0), Val::A(_) => panic!("aggregate as term") } }
    pub fn same(&self, o: &Val) -> bool {
        match (self, o) {
            (Val::C(a), Val::C(b)) => a == b,
            (Val::S(a), Val::S(b)) => a == b,
            (Val::U, Val::U) => true,
            (Val::A(a), Val::A(b)) => a.len() == b.len() && a.iter().zip(b.iter()).all(|(x, y)| x.same(y)),
            _ => false,
        }
    }
}

pub const SLOT: u64 = 1 << 20;
pub const BASE_OFF: u64 = 0x1000;
pub const STACK_SLOT0: u64 = 1 << 26;
pub const CODE_BASE: u64 = 1 << 45;
pub const HEAP_SLOT0: u64 = 1 << 16;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind { Heap, Stack, Global, Freed }

pub const UNINIT: u32 = u32::MAX;

#[derive(Clone, Debug)]
pub struct Obj { pub base: u64, pub size: u64, pub kind: Kind, pub align: u64, pub ro: bool, pub data: Vec<u8>, pub tags: Option<Vec<u32>> }

impl Obj {
    pub fn new(base: u64, size: u64, kind: Kind, align: u64) -> Obj {
        let tags = if size > 0 && kind != Kind::Global { Some(vec![UNINIT; size as usize]) } else { None };
        Obj { base, size, kind, align, ro: false, data: vec![0; size as usize], tags }
    }
    pub fn zero(&mut self) { self.tags = None; for b in self.data.iter_mut() { *b = 0; } }
    #[inline]
    pub fn concrete(&self, o: usize, n: usize) -> bool {
        match &self.tags { None => true, Some(t) => t[o..o + n].iter().all(|x| *x == 0) }
    }
    pub fn load(&self, o: usize, n: usize) -> Val {
        if self.concrete(o, n) {
            let mut v = 0u128;
            for i in (0..n).rev() { v = (v << 8) | self.data[o + i] as u128; }
            return Val::C(v);
        }
        let tags = self.tags.as_ref().unwrap();
        if tags[o..o + n].iter().all(|x| *x == UNINIT) { return Val::U; }
        let t0 = tags[o];
        if t0 != 0 && t0 != UNINIT && self.data[o] == 0 && width(t0) as usize == n * 8 && (0..n).all(|i| tags[o + i] == t0 && self.data[o + i] as usize == i) {
            return Val::S(t0);
        }
        let mut t: Option<T> = None;
        for i in 0..n {
            let b = self.byte(o + i);
            t = Some(match t { None => b, Some(l) => concat(b, l) });
        }
        Val::t(t.unwrap())
    }
    pub fn byte(&self, i: usize) -> T {
        match &self.tags {
            None => cst(8, self.data[i] as u128),
            Some(t) => match t[i] { 0 => cst(8, self.data[i] as u128), UNINIT => cst(8, 0), x => extract(x, self.data[i] as u16 * 8, 8) },
        }
    }
    pub fn store(&mut self, o: usize, n: usize, v: &Val) {
        match v {
            Val::C(c) => {
                for i in 0..n { self.data[o + i] = (c >> (8 * i)) as u8; }
                if let Some(t) = &mut self.tags { for x in &mut t[o..o + n] { *x = 0; } }
            }
            Val::S(t) => {
                let mut t = *t;
                if (width(t) as usize) < n * 8 { t = zext(t, (n * 8) as u16); }
                if let Some(k) = is_const(t) { return self.store(o, n, &Val::C(k)); }
                let size = self.size as usize;
                let tags = self.tags.get_or_insert_with(|| vec![0; size]);
                for i in 0..n { tags[o + i] = t; self.data[o + i] = i as u8; }
            }
            Val::U => {
                let size = self.size as usize;
                let tags = self.tags.get_or_insert_with(|| vec![0; size]);
                for i in 0..n { tags[o + i] = UNINIT; self.data[o + i] = 0; }
            }
            Val::A(_) => panic!("store aggregate"),
        }
    }
    pub fn copy_from(&mut self, o: usize, src: &Obj, so: usize, n: usize) {
        self.data[o..o + n].copy_from_slice(&src.data[so..so + n]);
        match (&mut self.tags, &src.tags) {
            (None, None) => {}
            (Some(t), None) => for x in &mut t[o..o + n] { *x = 0; },
            (None, Some(s)) => {
                if s[so..so + n].iter().any(|x| *x != 0) {
                    let mut t = vec![0; self.size as usize];
                    t[o..o + n].copy_from_slice(&s[so..so + n]);
                    self.tags = Some(t);
                }
            }
            (Some(t), Some(s)) => t[o..o + n].copy_from_slice(&s[so..so + n]),
        }
    }
    pub fn copy_within(&mut self, o: usize, so: usize, n: usize) {
        self.data.copy_within(so..so + n, o);
        if let Some(t) = &mut self.tags { t.copy_within(so..so + n, o); }
    }
}

const CH: usize = 32;
#[derive(Clone, Default)]
pub struct PVec { ch: Vec<Rc<Vec<Option<Rc<Obj>>>>> }
impl PVec {
    pub fn get(&self, i: usize) -> Option<&Rc<Obj>> { self.ch.get(i / CH)?.get(i % CH)?.as_ref() }
    pub fn set(&mut self, i: usize, v: Option<Rc<Obj>>) {
        while self.ch.len() <= i / CH { self.ch.push(Rc::new(vec![None; CH])); }
        Rc::make_mut(&mut self.ch[i / CH])[i % CH] = v;
    }
    pub fn get_mut(&mut self, i: usize) -> Option<&mut Obj> {
        let c = Rc::make_mut(self.ch.get_mut(i / CH)?);
        let o = c.get_mut(i % CH)?.as_mut()?;
        Some(Rc::make_mut(o))
    }
    pub fn truncate_chunks(&mut self, n: usize) { let k = (n + CH - 1) / CH; if self.ch.len() > k { self.ch.truncate(k); } }
    /// Indices at which two tables may differ.
    pub fn diff(&self, o: &PVec) -> Vec<usize> {
        let mut v = vec![];
        let n = self.ch.len().max(o.ch.len());
        for c in 0..n {
            match (self.ch.get(c), o.ch.get(c)) {
                (Some(a), Some(b)) => {
                    if Rc::ptr_eq(a, b) { continue; }
                    for i in 0..CH { match (&a[i], &b[i]) { (None, None) => {} (Some(x), Some(y)) if Rc::ptr_eq(x, y) => {} _ => v.push(c * CH + i) } }
                }
                (Some(a), None) | (None, Some(a)) => for i in 0..CH { if a[i].is_some() { v.push(c * CH + i); } },
                _ => {}
            }
        }
        v
    }
    pub fn iter(&self) -> impl Iterator<Item = &Rc<Obj>> { self.ch.iter().flat_map(|c| c.iter().filter_map(|o| o.as_ref())) }
}

#[derive(Clone, Default)]
pub struct Mem { pub glob: PVec, pub heap: PVec, pub stack: PVec, pub heap_next: u64, pub stack_next: u64, pub live: u64, pub live_bytes: u64 }

pub enum Region { Glob(usize), Heap(usize), Stack(usize), None }
pub fn region(addr: u64) -> Region {
    let s = addr / SLOT;
    if s == 0 { Region::None }
    else if s < HEAP_SLOT0 { Region::Glob(s as usize) }
    else if s < STACK_SLOT0 { Region::Heap((s - HEAP_SLOT0) as usize) }
    else if s < 2 * STACK_SLOT0 - (1 << 25) { Region::Stack((s - STACK_SLOT0) as usize) }
    else { Region::None }
}
impl Mem {
    pub fn alloc_heap(&mut self, size: u64, align: u64) -> u64 {
        let slots = (size + 2 * BASE_OFF + SLOT - 1) / SLOT;
        let s = self.heap_next;
        self.heap_next += slots;
        let base = (HEAP_SLOT0 + s) * SLOT + BASE_OFF;
        self.heap.set(s as usize, Some(Rc::new(Obj::new(base, size, Kind::Heap, align))));
        self.live += 1;
        self.live_bytes += size;
        base
    }
    pub fn alloc_stack(&mut self, size: u64, align: u64) -> (u64, u64) {
        let slots = (size + 2 * BASE_OFF + SLOT - 1) / SLOT;
        let s = self.stack_next;
        self.stack_next += slots;
        let base = (STACK_SLOT0 + s) * SLOT + BASE_OFF;
        self.stack.set(s as usize, Some(Rc::new(Obj::new(base, size, Kind::Stack, align))));
        (base, s)
    }
    pub fn pop_stack(&mut self, to: u64) {
        for i in to..self.stack_next { self.stack.set(i as usize, None); }
        self.stack_next = to;
        self.stack.truncate_chunks(to as usize);
    }
}
