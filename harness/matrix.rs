use graphrox::matrix::{CsrAdjacencyMatrix, CsrSquareMatrix, MatrixRepresentation};
use graphrox::{Graph, GraphRepresentation};
use symrt::*;
#[path = "/verif/harness/spec.rs"] mod spec;
use spec::Spec;

/// One symbolic write to the adjacency matrix and to the model.
#[inline(never)]
fn op(m: &mut CsrAdjacencyMatrix, s: &mut Spec) {
    let (c, r) = (any_u64(), any_u64());
    if choose(2) == 0 {
        let v = any_u8();
        m.set_entry(v, c, r);
        if v != 0 { s.add(c, r); cover("set") } else { s.del(c, r); let ok = (c != u64::MAX) & (r != u64::MAX); s.grow(c, ok); s.grow(r, ok); cover("set to zero") }
    } else {
        m.zero_entry(c, r);
        s.del(c, r);
        cover("zero");
    }
}
#[inline(never)]
fn start() -> (CsrAdjacencyMatrix, Spec) {
    order(choose(2) as u8);
    let mut m = if choose(2) == 0 { CsrAdjacencyMatrix::new() } else { CsrAdjacencyMatrix::default() };
    let mut s = Spec::new(false);
    // Many known ones first: in one column, in one row, or scattered; mirrored if asked for
    let (many, both) = (param("fill", 0), param("both", 0) == 1);
    let shape = if many > 0 { choose(4) } else { 0 };
    let mut i = 0;
    while i < many {
        let (a, b) = at(shape, i);
        m.set_entry(1 + (i % 255) as u8, a, b);
        s.add(a, b);
        if both { m.set_entry(1, b, a); s.add(b, a); }
        if i % 6 == 4 { m.zero_entry(a, b); s.del(a, b); if both { m.set_entry(0, b, a); s.del(b, a); } }
        i += 1;
    }
    let mut i = 0;
    while i < param("ops", 2) { op(&mut m, &mut s); i += 1; }
    (m, s)
}
/// Known positions, all distinct.
#[inline(always)]
fn at(shape: u64, i: u64) -> (u64, u64) { match shape { 0 => (1000, 3 * i), 1 => (5 * i + 1, 7), 2 => (i * 37 % 1009, i * 91 % 2003), _ => (i % 17, i / 17) } }
/// Whether the list holds every index for which `f` is true, once, and nothing else.
#[inline(always)]
fn lists(l: &[u64], n: u64, f: impl Fn(u64) -> bool) -> bool {
    let mut ok = l.len() as u64 == n;
    let mut k = 0;
    while k < l.len() {
        ok &= f(l[k]);
        let mut j = 0;
        while j < k { ok &= l[j] != l[k]; j += 1; }
        k += 1;
    }
    ok
}

/// Entry types of the numeric matrix, with the arithmetic the model uses for them.
trait Entry: graphrox_entry::Num { fn any() -> Self; fn some() -> Self; fn zero() -> Self; fn few(i: u64) -> Self; fn one() -> Self; fn next(self) -> Option<Self>; fn same(self, o: Self) -> bool; fn pick(c: bool, a: Self, b: Self) -> Self; fn word(self) -> u64; }
mod graphrox_entry { pub trait Num: Copy + PartialEq + PartialOrd + std::fmt::Debug + std::fmt::Display {} impl<T: Copy + PartialEq + PartialOrd + std::fmt::Debug + std::fmt::Display> Num for T {} }
macro_rules! int_entry { ($($t:ty, $any:expr);*) => { $(impl Entry for $t {
    #[inline(always)] fn any() -> $t { ($any) as $t }
    #[inline(always)] fn some() -> $t { [0 as $t, <$t>::MAX, (0 as $t).wrapping_sub(1), 7][choose(4) as usize] }
    #[inline(always)] fn zero() -> $t { 0 }
    #[inline(always)] fn few(i: u64) -> $t { (i * 11) as $t }
    #[inline(always)] fn one() -> $t { 1 }
    #[inline(always)] fn next(self) -> Option<$t> { if self == <$t>::MAX { None } else { Some(self.wrapping_add(1)) } }
    #[inline(always)] fn same(self, o: $t) -> bool { self == o }
    #[inline(always)] fn pick(c: bool, a: $t, b: $t) -> $t { if c { a } else { b } }
    #[inline(always)] fn word(self) -> u64 { self as u64 }
})* } }
int_entry!(u8, any_u8(); i8, any_u8(); u16, any_u32(); i16, any_u32(); u32, any_u32(); i32, any_u32(); i64, any_u64(); u64, any_u64(); i128, any_u64() as i64; u128, (any_u64() as u128) << choose(2) * 64);
impl Entry for f64 {
    #[inline(always)] fn any() -> f64 { let v = f64::from_bits(any_u64()); assume(v == v); v }
    #[inline(always)] fn some() -> f64 { [-0.0, -1.0, 2.5, f64::INFINITY][choose(4) as usize] }
    #[inline(always)] fn zero() -> f64 { 0.0 }
    #[inline(always)] fn few(i: u64) -> f64 { i as f64 * 0.5 - 6.0 }
    #[inline(always)] fn one() -> f64 { 1.0 }
    #[inline(always)] fn next(self) -> Option<f64> { Some(self + 1.0) }
    #[inline(always)] fn same(self, o: f64) -> bool { self == o }
    #[inline(always)] fn pick(c: bool, a: f64, b: f64) -> f64 { if c { a } else { b } }
    #[inline(always)] fn word(self) -> u64 { if self == 0.0 { 0 } else { self.to_bits() } }
}
impl Entry for f32 {
    #[inline(always)] fn any() -> f32 { let v = f32::from_bits(any_u32()); assume(v == v); v }
    #[inline(always)] fn some() -> f32 { [-0.0, -1.0, 2.5, f32::INFINITY][choose(4) as usize] }
    #[inline(always)] fn zero() -> f32 { 0.0 }
    #[inline(always)] fn few(i: u64) -> f32 { i as f32 * 0.5 - 6.0 }
    #[inline(always)] fn one() -> f32 { 1.0 }
    #[inline(always)] fn next(self) -> Option<f32> { Some(self + 1.0) }
    #[inline(always)] fn same(self, o: f32) -> bool { self == o }
    #[inline(always)] fn pick(c: bool, a: f32, b: f32) -> f32 { if c { a } else { b } }
    #[inline(always)] fn word(self) -> u64 { if self == 0.0 { 0 } else { self.to_bits() as u64 } }
}
/// Facts (col, row, value, current): at most one fact about a position is current.
struct Cells<T> { e: Vec<(u64, u64, T, bool)>, n: u64 }
impl<T: Entry> Cells<T> {
    #[inline(always)]
    fn get(&self, c: u64, r: u64) -> T { let mut v = T::zero(); for f in &self.e { v = T::pick(f.3 & (f.0 == c) & (f.1 == r), f.2, v); } v }
    #[inline(always)]
    fn put(&mut self, c: u64, r: u64, v: T, ok: bool) {
        for f in self.e.iter_mut() { f.3 &= !(ok & (f.0 == c) & (f.1 == r)); }
        self.e.push((c, r, v, ok));
    }
    #[inline(always)]
    fn grow(&mut self, i: u64, ok: bool) { let w = i.wrapping_add(1); self.n = if ok & (w > self.n) { w } else { self.n }; }
    #[inline(always)]
    fn count(&self) -> u64 { let mut n = 0; for f in &self.e { n += (f.3 & !f.2.same(T::zero())) as u64; } n }
}
macro_rules! numeric { ($name:ident, $t:ty) => {
    mod $name {
        use super::*;
        #[inline(never)]
        pub fn op(m: &mut CsrSquareMatrix<$t>, s: &mut Cells<$t>) {
            let (c, r) = (any_u64(), any_u64());
            let ok = (c != u64::MAX) & (r != u64::MAX);
            match choose(3) {
                0 => { let v = if param("some", 0) == 1 { <$t as Entry>::some() } else { <$t as Entry>::any() }; m.set_entry(v, c, r); s.put(c, r, v, ok); s.grow(c, ok); s.grow(r, ok); cover("set") }
                1 => {
                    let was = s.get(c, r);
                    match Entry::next(was) { Some(v) => { m.increment_entry(c, r); s.put(c, r, v, ok); s.grow(c, ok); s.grow(r, ok); cover("increment") } None => cover("at the maximum") }
                }
                _ => { m.zero_entry(c, r); s.put(c, r, <$t as Entry>::zero(), ok); cover("zero") }
            }
        }
        #[inline(never)]
        pub fn start() -> (CsrSquareMatrix<$t>, Cells<$t>) {
            order(choose(2) as u8);
            let mut m: CsrSquareMatrix<$t> = if choose(2) == 0 { CsrSquareMatrix::new() } else { CsrSquareMatrix::default() };
            let mut s = Cells { e: Vec::new(), n: 0 };
            let many = param("fill", 0);
            let shape = if many > 0 { choose(4) } else { 0 };
            let mut i = 0;
            while i < many {
                let (c, r) = at(shape, i);
                let v = if i % 3 == 0 { <$t as Entry>::one() } else { <$t as Entry>::few(i) };
                m.set_entry(v, c, r);
                s.put(c, r, v, true);
                s.grow(c, true);
                s.grow(r, true);
                if i % 5 == 2 { m.zero_entry(c, r); s.put(c, r, <$t as Entry>::zero(), true); }
                if i % 7 == 3 { let w = s.get(c, r); if let Some(v) = Entry::next(w) { m.increment_entry(c, r); s.put(c, r, v, true); } }
                i += 1;
            }
            let mut i = 0;
            while i < param("ops", 2) { op(&mut m, &mut s); i += 1; }
            (m, s)
        }
        pub fn cells() {
            let (m, s) = start();
            let (x, y) = (any_u64(), any_u64());
            let got = m.get_entry(x, y);
            log(m.entry_count());
            log(m.dimension());
            log(got.word());
            check(got.same(s.get(x, y)), "an entry is the last value written plus later increments, zero if none");
            check(m.entry_count() == s.count(), "entry_count is the number of nonzero positions");
            check(m.dimension() == s.n, "dimension is one more than the largest index written");
        }
        pub fn iter() {
            let (m, s) = start();
            let mut seen: Vec<(u64, u64)> = Vec::new();
            let (mut ok, mut once) = (true, true);
            for (v, c, r) in &m {
                ok &= v.same(s.get(c, r)) & !v.same(Entry::zero());
                let mut j = 0;
                while j < seen.len() { once &= !((seen[j].0 == c) & (seen[j].1 == r)); j += 1; }
                seen.push((c, r));
            }
            log(seen.len() as u64);
            check(ok, "every iterated entry is nonzero and has its value");
            check(once & (seen.len() as u64 == s.count()), "every nonzero position is iterated once");
        }
    }
} }
numeric!(n_i8, i8);
numeric!(n_u8, u8);
numeric!(n_u64, u64);
numeric!(n_i64, i64);
numeric!(n_i128, i128);
numeric!(n_f64, f64);
numeric!(n_u16, u16);
numeric!(n_i16, i16);
numeric!(n_u32, u32);
numeric!(n_i32, i32);
numeric!(n_u128, u128);
numeric!(n_f32, f32);

harnesses! {
    fn h_adj_cells() {
        let (m, s) = start();
        let (x, y) = (any_u64(), any_u64());
        let got = m.get_entry(x, y);
        log(m.entry_count());
        log(m.dimension());
        log(got as u64);
        check(got == s.has(x, y) as u8, "an entry is one exactly if the last write to it was nonzero");
        check(m.entry_count() == s.edges(), "entry_count is the number of ones");
        check(m.dimension() == s.n, "dimension is one more than the largest index written");
    }
    fn h_adj_vectors() {
        let (m, s) = start();
        let v = if param("known", 0) == 1 { [1000, 7, 12][choose(3) as usize] } else { any_u64() };
        let (rows, cols) = (m.get_sparse_col_vector(v), m.get_sparse_row_vector(v));
        let (o, i) = (s.out_degree(v), s.in_degree(v));
        check(lists(&rows, o, |r| s.has(v, r)), "a column vector lists the rows of the column's ones");
        check(lists(&cols, i, |c| s.has(c, v)), "a row vector lists the columns of the row's ones");
        check((m.col_nonzero_entry_count(v) == o) & (m.row_nonzero_entry_count(v) == i), "row and column counts are the numbers of ones");
    }
    fn h_adj_iter() {
        let (m, s) = start();
        let mut seen: Vec<(u64, u64)> = Vec::new();
        let (mut ok, mut once) = (true, true);
        for (c, r) in &m {
            ok &= s.has(c, r);
            let mut j = 0;
            while j < seen.len() { once &= !((seen[j].0 == c) & (seen[j].1 == r)); j += 1; }
            seen.push((c, r));
        }
        log(seen.len() as u64);
        check(ok, "every iterated position is a one");
        check(once & (seen.len() as u64 == s.edges()), "every one is iterated once");
    }
    fn h_from_matrix() {
        let (m, s) = start();
        let (x, y) = (any_u64(), any_u64());
        let mut sym = true;
        for f in &s.e { sym &= !f.2 | s.has(f.1, f.0); }
        let want = s.has(x, y);
        let d = Graph::directed_from(m.clone());
        check((d.does_edge_exist(x, y) == want) & !d.is_undirected() & (d.edge_count() == s.edges()) & (d.vertex_count() == s.n), "a directed graph has exactly the edges of its matrix");
        match Graph::undirected_from(m.clone()) {
            Ok(u) => { check(sym, "only symmetric matrices make undirected graphs"); check((u.does_edge_exist(x, y) == want) & u.is_undirected() & (u.edge_count() == s.edges()) & (u.vertex_count() == s.n), "an undirected graph has exactly the edges of its matrix"); cover("symmetric") }
            Err(_) => { check(!sym, "every symmetric matrix makes an undirected graph"); cover("asymmetric") }
        }
        if sym { let u = unsafe { Graph::undirected_from_unchecked(m) }; check((u.does_edge_exist(x, y) == want) & u.is_undirected() & (u.edge_count() == s.edges()) & (u.vertex_count() == s.n), "an unchecked undirected graph has exactly the edges of its matrix") }
    }
    /// A matrix with a symmetric pair already in it, and further writes.
    fn h_from_pair() {
        order(choose(2) as u8);
        let (mut m, mut s) = (CsrAdjacencyMatrix::new(), Spec::new(false));
        let (a, b) = (any_u64(), any_u64());
        m.set_entry(1, a, b);
        m.set_entry(1, b, a);
        s.add(a, b);
        s.add(b, a);
        let mut i = 0;
        while i < param("ops", 1) { op(&mut m, &mut s); i += 1; }
        let mut sym = true;
        for f in &s.e { sym &= !f.2 | s.has(f.1, f.0); }
        let (x, y) = (any_u64(), any_u64());
        match Graph::undirected_from(m) {
            Ok(u) => { check(sym, "only symmetric matrices make undirected graphs"); check((u.does_edge_exist(x, y) == s.has(x, y)) & (u.edge_count() == s.edges()) & (u.vertex_count() == s.n), "the graph has exactly the edges of its matrix"); cover("symmetric") }
            Err(_) => { check(!sym, "every symmetric matrix makes an undirected graph"); cover("asymmetric") }
        }
    }
    fn h_num_i8() { n_i8::cells() }
    fn h_num_u8() { n_u8::cells() }
    fn h_num_u64() { n_u64::cells() }
    fn h_num_i64() { n_i64::cells() }
    fn h_num_i128() { n_i128::cells() }
    fn h_num_u16() { n_u16::cells() }
    fn h_iter_u16() { n_u16::iter() }
    fn h_num_i16() { n_i16::cells() }
    fn h_iter_i16() { n_i16::iter() }
    fn h_num_u32() { n_u32::cells() }
    fn h_iter_u32() { n_u32::iter() }
    fn h_num_i32() { n_i32::cells() }
    fn h_iter_i32() { n_i32::iter() }
    fn h_num_u128() { n_u128::cells() }
    fn h_iter_u128() { n_u128::iter() }
    fn h_num_f32() { n_f32::cells() }
    fn h_iter_f32() { n_f32::iter() }
    fn h_num_f64() { n_f64::cells() }
    fn h_iter_i8() { n_i8::iter() }
    fn h_iter_u64() { n_u64::iter() }
    fn h_iter_f64() { n_f64::iter() }
}
