use graphrox::builder::CompressedGraphBuilder;
use graphrox::error::GraphRoxError;
use graphrox::matrix::{CsrAdjacencyMatrix, CsrSquareMatrix, MatrixRepresentation};
use graphrox::{Graph, GraphRepresentation};
use std::fmt::Write;
use symrt::*;
#[path = "/verif/harness/spec.rs"] mod spec;
use spec::Spec;

/// The documented layout, from the texts of the cells (row by row).
#[inline(never)]
fn layout(cells: &[Vec<u8>], n: usize) -> Vec<u8> {
    let mut w = 0;
    for c in cells { if c.len() > w { w = c.len() } }
    let mut t = Vec::new();
    let mut r = 0;
    while r < n {
        t.push(b'['); t.push(b' ');
        let mut c = 0;
        while c < n {
            let x = &cells[r * n + c];
            let mut k = x.len();
            while k < w { t.push(b' '); k += 1; }
            for b in x { t.push(*b); }
            if c + 1 < n { t.push(b','); }
            t.push(b' ');
            c += 1;
        }
        t.push(b']');
        if r + 1 < n { t.push(b'\r'); t.push(b'\n'); }
        r += 1;
    }
    t
}
#[inline(always)]
fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() { return false; }
    let mut ok = true;
    let mut i = 0;
    while i < a.len() { ok &= a[i] == b[i]; i += 1; }
    ok
}
#[inline(always)]
fn id(n: u64) -> u64 { let v = if n > 8 { any_u8() } else { any_u8() & 7 } as u64; assume(v < n); v }
#[inline(never)]
fn adj_text(m: &CsrAdjacencyMatrix) -> String { m.try_to_string().unwrap() }
#[inline(never)]
fn graph_text(g: &Graph) -> String { g.matrix_string().unwrap() }
#[inline(never)]
fn add(g: &mut Graph, s: &mut Spec, a: u64, b: u64) { g.add_edge(a, b); s.add(a, b); }
#[inline(never)]
fn del(g: &mut Graph, s: &mut Spec, a: u64, b: u64) { g.delete_edge(a, b); s.del(a, b); }
#[inline(never)]
fn set(m: &mut CsrAdjacencyMatrix, s: &mut Spec, v: u8, a: u64, b: u64) { m.set_entry(v, a, b); if v != 0 { s.add(a, b) } else { s.del(a, b) } }
#[inline(never)]
fn ones(s: &Spec, n: u64) -> Vec<Vec<u8>> {
    let mut v = Vec::new();
    let mut r = 0;
    while r < n { let mut c = 0; while c < n { v.push(vec![b'0' + s.has(c, r) as u8]); c += 1; } r += 1; }
    v
}

macro_rules! number { ($name:ident, $t:ty, $zero:expr, $dec:expr, $vals:expr) => { mod $name {
    use super::*;
    /// The number as it is written with `d` decimals.
    #[inline(never)]
    pub fn show(v: $t, d: usize) -> Vec<u8> {
        // No float has more than 1074 decimals, and a precision is at most 65535
        let f = if d > 2000 { 2000 } else { d };
        let mut t = if $dec { format!("{:.1$}", v, f) } else { format!("{}", v) };
        if !$dec && d > 0 { t.push('.'); }
        let mut t = t.into_bytes();
        let zeros = if $dec { d - f } else { d };
        t.resize(t.len() + zeros, b'0');
        t
    }
    #[inline(never)]
    pub fn run(any: fn() -> $t) {
        order(choose(2) as u8);
        let n = if param("size", 0) > 0 { param("size", 0) } else { 1 + choose(param("dim", 3)) };
        let d = if param("wide", 0) == 0 { choose(param("decimals", 4)) as usize } else { [5, 16, 17, 255, 256, 300, 65532, 65535, 65536, 70000][choose(param("wide", 0)) as usize] };
        let mut m: CsrSquareMatrix<$t> = CsrSquareMatrix::new();
        m.set_entry($zero, n - 1, 0);
        let (vals, k) = ($vals, param("entries", 2));
        let mut at: Vec<(u64, u64, $t)> = Vec::new();
        let mut i = 0;
        while i < k {
            let v = if i == 0 && param("any", 0) == 1 { any() } else { vals[choose(vals.len() as u64) as usize] };
            let (c, r) = if n > 8 { (n - 1 - choose(2) * 7, choose(2) * 9 + i) } else { (choose(n), choose(n)) };
            m.set_entry(v, c, r);
            let mut j = 0;
            while j < at.len() { if at[j].0 == c && at[j].1 == r { at.remove(j); } else { j += 1; } }
            at.push((c, r, v));
            i += 1;
        }
        let mut cells = Vec::new();
        let mut r = 0;
        while r < n { let mut c = 0; while c < n { let mut v = $zero; for x in &at { if x.0 == c && x.1 == r && x.2 != $zero { v = x.2 } } cells.push(show(v, d)); c += 1; } r += 1; }
        let want = layout(&cells, n as usize);
        let got = m.to_string_with_precision(d).unwrap();
        log(got.len() as u64);
        check(same(got.as_bytes(), &want), "every cell shows its entry, right-aligned");
        if d == (if $dec { 2 } else { 0 }) { let mut t = String::new(); check(write!(t, "{}", m).is_ok() && same(t.as_bytes(), &want), "the displayed text is the text"); cover("displayed") }
    }
} } }
number!(n_i8, i8, 0i8, false, [1i8, -1, 99, -100, i8::MIN]);
number!(n_u8, u8, 0u8, false, [1u8, 9, 10, 255]);
number!(n_u64, u64, 0u64, false, [7u64, 10, 1000000, u64::MAX]);
number!(n_i64, i64, 0i64, false, [-1i64, 10, -1000, i64::MIN]);
number!(n_i128, i128, 0i128, false, [-1i128, 10, 1_000_000_000_000_000, -999_999_999_999_999]);
number!(n_f64, f64, 0.0f64, true, [1.0f64, -0.5, 9.999, 99.5, -12345.678, 0.001, 1e20]);
number!(n_u16, u16, 0u16, false, [9u16, 10, u16::MAX]);
number!(n_i16, i16, 0i16, false, [-1i16, 100, i16::MIN]);
number!(n_u32, u32, 0u32, false, [9u32, 10, u32::MAX]);
number!(n_i32, i32, 0i32, false, [-1i32, 100, i32::MIN]);
number!(n_u128, u128, 0u128, false, [9u128, 10, 1_000_000_000_000_000]);
number!(n_f32, f32, 0.0f32, true, [1.0f32, -0.5, 9.999, -0.04]);

/// Whether the text is that of `n` rows whose cells `at` gives, right-aligned in `w` columns, else `zero`.
#[inline(never)]
fn shows(t: &[u8], n: u64, w: usize, zero: &[u8], at: &[(u64, u64, &[u8])]) -> bool {
    let (mut p, mut r, mut ok) = (0, 0, t.len() == n as usize * (n as usize * (w + 2) + 4) - 2);
    while ok && r < n {
        ok &= t[p] == b'[' && t[p + 1] == b' ';
        p += 2;
        let mut c = 0;
        while c < n {
            let mut x = zero;
            for e in at { if e.1 == r && e.0 == c { x = e.2 } }
            let mut k = 0;
            while k < w { ok &= t[p + k] == if k + x.len() < w { b' ' } else { x[k + x.len() - w] }; k += 1; }
            p += w;
            if c + 1 < n { ok &= t[p] == b','; p += 1; }
            ok &= t[p] == b' ';
            p += 1;
            c += 1;
        }
        ok &= t[p] == b']';
        p += 1;
        if r + 1 < n { ok &= t[p] == b'\r' && t[p + 1] == b'\n'; p += 2; }
        r += 1;
    }
    ok
}
#[inline(always)]
fn refused(r: &Result<String, GraphRoxError>) -> bool { matches!(r, Err(GraphRoxError::CapacityOverflow(_))) }
/// A dimension whose text is beyond what can be allocated.
#[inline(always)]
fn huge() -> u64 {
    if param("vast", 0) > 0 { return [(1 << 32) - 1, 1 << 32, (1 << 33) - 1, (1 << 48) - 1, (1 << 63) - 1, 1 << 63, u64::MAX - 1][choose(7) as usize]; }
    let v = any_u64();
    assume(v >= 40_000);
    v
}

harnesses! {
    fn h_graph() {
        order(choose(2) as u8);
        let und = choose(2) == 1;
        let (mut g, mut s) = (if und { Graph::new_undirected() } else { Graph::new_directed() }, Spec::new(und));
        let n = if param("size", 0) > 0 { param("size", 0) } else { choose(param("dim", 3) + 1) };
        if n > 0 {
            g.add_vertex(n - 1, None);
            let mut i = 0;
            while i < param("edges", 2) { let (a, b) = (id(n), id(n)); add(&mut g, &mut s, a, b); i += 1; }
            if choose(2) == 1 { let (a, b) = (id(n), id(n)); del(&mut g, &mut s, a, b); }
        }
        let t = graph_text(&g);
        log(t.len() as u64);
        check(same(t.as_bytes(), &layout(&ones(&s, n), n as usize)), "every cell shows its edge");
        if n == 0 { cover("empty") } else { cover("not empty") }
    }
    fn h_adj() {
        order(choose(2) as u8);
        let (mut m, mut s) = (CsrAdjacencyMatrix::new(), Spec::new(false));
        let n = if param("size", 0) > 0 { param("size", 0) } else { 1 + choose(param("dim", 3)) };
        m.set_entry(0, n - 1, 0);
        let mut i = 0;
        while i < param("writes", 2) { let (a, b, v) = (id(n), id(n), any_u8()); set(&mut m, &mut s, v, a, b); i += 1; }
        let t = adj_text(&m);
        log(t.len() as u64);
        let want = layout(&ones(&s, n), n as usize);
        check(same(t.as_bytes(), &want), "every cell shows its entry");
        let mut u = String::new();
        check(write!(u, "{}", m).is_ok() && same(u.as_bytes(), &want), "the displayed text is the text");
    }
    fn h_i8() { n_i8::run(|| any_u8() as i8) }
    fn h_u8() { n_u8::run(any_u8) }
    fn h_u64() { n_u64::run(any_u64) }
    fn h_i64() { n_i64::run(|| any_u64() as i64) }
    fn h_i128() { n_i128::run(|| 0) }
    fn h_u16() { n_u16::run(|| 0) }
    fn h_i16() { n_i16::run(|| 0) }
    fn h_u32() { n_u32::run(|| 0) }
    fn h_i32() { n_i32::run(|| 0) }
    fn h_u128() { n_u128::run(|| 0) }
    fn h_f64() { n_f64::run(|| 0.0) }
    fn h_f32() { n_f32::run(|| 0.0) }
    fn h_decimals() {
        let v = any_u64();
        assume(v >= 5 << 30);
        match choose(2) {
            0 => { let mut m: CsrSquareMatrix<u64> = CsrSquareMatrix::new(); m.set_entry([0u64, 9, u64::MAX][choose(3) as usize], choose(3), 0); check(refused(&m.to_string_with_precision(v as usize)), "a matrix text with too many decimals to hold is refused"); cover("decimals of integers") }
            _ => { let mut m: CsrSquareMatrix<f64> = CsrSquareMatrix::new(); m.set_entry(-12.5, choose(3), 0); check(refused(&m.to_string_with_precision(v as usize)), "a matrix text with too many decimals to hold is refused"); cover("decimals of floats") }
        }
    }
    fn h_wide() {
        let n = param("size", 258);
        let (last, two) = (n - 1, n - 2);
        match if param("numbers", 0) == 1 { 1 + choose(2) } else { 0 } {
            0 => {
                let mut m = CsrAdjacencyMatrix::new();
                let at: [(u64, u64, &[u8]); 5] = [(last, 0, b"1"), (2, two, b"1"), (0, last, b"1"), (two, two, b"1"), (3, 1, b"1")];
                for e in &at { m.set_entry(1, e.0, e.1); }
                m.set_entry(1, two, 7);
                m.zero_entry(two, 7);
                check(shows(m.try_to_string().unwrap().as_bytes(), n, 1, b"0", &at), "every cell shows its entry");
                cover("wide");
            }
            1 => {
                let mut m: CsrSquareMatrix<i64> = CsrSquareMatrix::new();
                let at: [(u64, u64, &[u8]); 5] = [(last, 0, b"-12"), (2, two, b"7"), (0, last, b"105"), (two, two, b"1"), (3, 1, b"-9")];
                let v = [-12, 7, 105, 1, -9];
                let mut i = 0;
                while i < 5 { m.set_entry(v[i], at[i].0, at[i].1); i += 1; }
                check(shows(m.to_string_with_precision(0).unwrap().as_bytes(), n, 3, b"0", &at), "every cell shows its entry, right-aligned");
                cover("wide");
            }
            _ => {
                let mut m: CsrSquareMatrix<f64> = CsrSquareMatrix::new();
                let at: [(u64, u64, &[u8]); 5] = [(last, 0, b"-2.5"), (2, two, b"0.5"), (0, last, b"10.0"), (two, two, b"1.0"), (3, 1, b"0.2")];
                let v = [-2.5, 0.5, 9.98, 1.0, 0.25];
                let mut i = 0;
                while i < 5 { m.set_entry(v[i], at[i].0, at[i].1); i += 1; }
                check(shows(m.to_string_with_precision(1).unwrap().as_bytes(), n, 4, b"0.0", &at), "every cell shows its entry, right-aligned");
                cover("wide");
            }
        }
    }
    fn h_huge() {
        let v = huge();
        match choose(5) {
            0 => { let mut g = if choose(2) == 1 { Graph::new_undirected() } else { Graph::new_directed() }; g.add_vertex(v, None); check(v == u64::MAX || refused(&g.matrix_string()), "a graph's text too large to hold is refused"); cover("graph") }
            1 => { let mut m = CsrAdjacencyMatrix::new(); m.set_entry(1, v, choose(2)); check(v == u64::MAX || refused(&m.try_to_string()), "a matrix text too large to hold is refused"); let mut t = String::new(); check(v == u64::MAX || write!(t, "{}", m).is_err(), "displaying it is an error"); cover("adjacency") }
            2 => { let mut m: CsrSquareMatrix<u64> = CsrSquareMatrix::new(); m.set_entry(123, v, v); check(v == u64::MAX || refused(&m.to_string_with_precision(choose(3) as usize)), "a matrix text too large to hold is refused"); cover("integers") }
            3 => { let mut m: CsrSquareMatrix<f64> = CsrSquareMatrix::new(); m.set_entry(-12.5, v, 3); check(v == u64::MAX || refused(&m.to_string_with_precision(choose(3) as usize)), "a matrix text too large to hold is refused"); let mut t = String::new(); check(v == u64::MAX || write!(t, "{}", m).is_err(), "displaying it is an error"); cover("floats") }
            _ => { assume(v >= 320_000); let c = unsafe { CompressedGraphBuilder::new(choose(2) == 1, v, 1).finish() }; check(refused(&c.matrix_string()), "a compressed graph's text too large to hold is refused"); cover("compressed") }
        }
    }
}
