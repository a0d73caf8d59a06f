use graphrox::matrix::{CsrSquareMatrix, MatrixRepresentation};
use graphrox::{Graph, GraphRepresentation};
use symrt::*;
#[path = "/verif/harness/spec.rs"] mod spec;
use spec::Spec;

/// Edges of the model in the block (c, r) of side `b`.
#[inline(always)]
fn in_block(s: &Spec, b: u64, c: u64, r: u64) -> u64 { let mut n = 0; for f in &s.e { n += (f.2 & (f.0 / b == c) & (f.1 / b == r)) as u64; } n }
/// Blocks that hold an edge: each counted at the last fact in it.
#[inline(always)]
fn nonempty(s: &Spec, b: u64) -> u64 {
    let mut n = 0;
    let mut i = 0;
    while i < s.e.len() {
        let f = s.e[i];
        let mut last = f.2;
        let mut j = i + 1;
        while j < s.e.len() { let g = s.e[j]; last &= !(g.2 & (g.0 / b == f.0 / b) & (g.1 / b == f.1 / b)); j += 1; }
        n += last as u64;
        i += 1;
    }
    n
}
#[inline(always)]
fn side(b: u64, n: u64) -> u64 { if b < 1 { 1 } else if b > n { n } else { b } }
#[inline(always)]
fn blocks(b: u64, n: u64) -> u64 { n / b + (n % b != 0) as u64 }
/// Whether `got` is `k` edges over a block's area (`k` at most `most`).
#[inline(always)]
fn is_avg(got: f64, k: u64, area: f64) -> bool {
    let most = param("most", 10);
    let mut ok = k <= most;
    let mut i = 0;
    while i <= most { ok &= (k != i) | (got == i as f64 / area); i += 1; }
    ok
}
#[inline(never)]
fn add(g: &mut Graph, s: &mut Spec, a: u64, b: u64) { g.add_edge(a, b); s.add(a, b); }
#[inline(never)]
fn del(g: &mut Graph, s: &mut Spec, a: u64, b: u64) { g.delete_edge(a, b); s.del(a, b); }
#[inline(never)]
fn grow(g: &mut Graph, s: &mut Spec, v: u64) { g.add_vertex(v, None); s.grow(v, true); }
#[inline(never)]
fn pool(g: &Graph, b: u64) -> CsrSquareMatrix<f64> { g.find_avg_pool_matrix(b) }
#[inline(never)]
fn approximate(g: &Graph, b: u64, t: f64) -> Graph { g.approximate(b, t) }
#[inline(never)]
fn fresh() -> (Graph, Spec) {
    order(choose(2) as u8);
    let und = choose(2) == 1;
    (if und { Graph::new_undirected() } else { Graph::new_directed() }, Spec::new(und))
}
/// Some edges in a graph of a given number of vertices.
#[inline(never)]
fn filled(n: u64) -> (Graph, Spec) {
    let (mut g, mut s) = fresh();
    grow(&mut g, &mut s, n - 1);
    let mut i = 0;
    while i < param("edges", 2) {
        let (a, b) = if n <= 256 { (any_u8() as u64, any_u8() as u64) } else { (any_u64(), any_u64()) };
        assume(a < n && b < n);
        add(&mut g, &mut s, a, b);
        i += 1;
    }
    if choose(param("deletes", 0) + 1) == 1 {
        let (a, b) = if n <= 256 { (any_u8() as u64, any_u8() as u64) } else { (any_u64(), any_u64()) };
        del(&mut g, &mut s, a, b);
        cover("deleted");
    }
    (g, s)
}
/// A vertex count and a block dimension for it.
#[inline(never)]
fn small() -> (u64, u64) {
    let n = [1u64, 2, 3, 4, 7, 8, 12, 16][choose(param("sizes", 8)) as usize];
    let b = [0, 1, 2, 3, 5, 8, n - 1, n, n + 1, u64::MAX][choose(10) as usize];
    cover(if b == 0 || b > n { "limited" } else if n % b != 0 { "ragged" } else { "exact" });
    (n, b)
}
const BIG: [(u64, u64); 14] = [(1 << 40, 1 << 20), (1 << 40, 1 << 39), ((1 << 40) + 5, 1 << 21), (1 << 50, u64::MAX), (1 << 60, 1 << 3), (u64::MAX, 1 << 33), (u64::MAX, u64::MAX), (u64::MAX - 1, 1 << 63), ((1 << 40) + 5, 0), (1 << 63, 1), (u64::MAX, 1), (1 << 45, 2), ((1 << 41) + 1, 3), (1 << 50, 7)];
#[inline(never)]
fn pooled(g: &Graph, s: &Spec, b: u64, n: u64) {
    let m = pool(g, b);
    let b = side(b, n);
    let (x, y) = (any_u64(), any_u64());
    let got = m.get_entry(x, y);
    log(m.dimension());
    log(m.entry_count());
    check(is_avg(got, in_block(s, b, x, y), b as f64 * b as f64), "an entry is the number of edges in its block over the block's area");
    check(m.dimension() == blocks(b, n), "the matrix has one row per block");
    check(m.entry_count() == nonempty(s, b), "exactly the blocks with edges have entries");
}
#[inline(never)]
fn approximated(g: &Graph, s: &Spec, b: u64, n: u64) {
    let t = f64::from_bits(any_u64());
    let a = approximate(g, b, t);
    let (x, y) = (any_u64(), any_u64());
    log(a.vertex_count());
    log(a.is_undirected() as u64);
    check(a.is_undirected() == s.und, "the direction is kept");
    if b <= 1 || n <= 1 {
        check((a.does_edge_exist(x, y) == s.has(x, y)) & (a.vertex_count() == n) & (a.edge_count() == s.edges()), "nothing to approximate: the graph itself");
        cover("unchanged");
        return;
    }
    let b = side(b, n);
    let dim = blocks(b, n);
    let area = b as f64 * b as f64;
    // the limits of the threshold
    let t = if t > 1.0 { 1.0 } else if t < 1e-18 { 1e-18 } else { t };
    let k = in_block(s, b, x, y);
    let mut want = false;
    let mut i = 1;
    let most = param("most", 10);
    while i <= most { want |= (k == i) & (i as f64 / area >= t); i += 1; }
    let mut n = 0;
    let mut i = 0;
    while i < s.e.len() {
        let f = s.e[i];
        let mut last = f.2;
        let mut j = i + 1;
        while j < s.e.len() { let g = s.e[j]; last &= !(g.2 & (g.0 / b == f.0 / b) & (g.1 / b == f.1 / b)); j += 1; }
        let k = in_block(s, b, f.0 / b, f.1 / b);
        let mut c = 1;
        while c <= most { n += (last & (k == c) & (c as f64 / area >= t)) as u64; c += 1; }
        i += 1;
    }
    check(a.does_edge_exist(x, y) == want, "an edge exactly where the block's average reaches the threshold");
    check((a.edge_count() == n) & (a.vertex_count() == dim), "one vertex per block, one edge per block that reaches the threshold");
    cover("approximated");
}
/// Many known edges, in blocks of all kinds of fill.
#[inline(never)]
fn many() -> (Graph, Spec, u64, u64) {
    let (mut g, mut s) = fresh();
    let (k, shape) = (param("edges", 40), choose(3));
    let (n, b) = [(20u64, 5u64), (61, 7), (1000, 64)][shape as usize];
    grow(&mut g, &mut s, n - 1);
    let mut i = 0;
    while i < k {
        let (x, y) = match shape { 0 => (i * i % n, (i * 7 + i / 20) % n), 1 => (8 + i % 20, 16 + i / 4), _ => ((i * 13 + 5) % n, i * i * 3 % n) };
        add(&mut g, &mut s, x, y);
        if i % 9 == 4 { del(&mut g, &mut s, x, y) }
        i += 1;
    }
    (g, s, n, b)
}
/// A run of edges in a block of side 3 off the diagonal, and one edge added or removed anywhere in the block.
#[inline(never)]
fn dense() -> (Graph, Spec, u64) {
    let (mut g, mut s) = fresh();
    let n = 8 + choose(2);
    grow(&mut g, &mut s, n - 1);
    let fill = [1u64, 4, 8, 9][choose(4) as usize];
    let mut i = 0;
    while i < fill { add(&mut g, &mut s, 3 + i % 3, i / 3); i += 1; }
    let (a, b) = ((any_u8() & 3) as u64, (any_u8() & 3) as u64);
    assume(a < 3 && b < 3);
    if choose(2) == 0 { add(&mut g, &mut s, 3 + a, b) } else { del(&mut g, &mut s, 3 + a, b) }
    (g, s, n)
}
/// `k` edges of fixed ids in the block of side 20 at (0, 1), and none elsewhere.
#[inline(never)]
fn full() -> (Graph, bool, u64) {
    order(choose(2) as u8);
    let und = choose(2) == 1;
    let mut g = if und { Graph::new_undirected() } else { Graph::new_directed() };
    let k = [255u64, 256, 257, 400][choose(4) as usize];
    let mut i = 0;
    while i < k { g.add_edge(i % 20, 20 + i / 20); i += 1; }
    g.add_vertex(59, None);
    (g, und, k)
}
harnesses! {
    fn h_pool_full() {
        let (g, und, k) = full();
        let m = pool(&g, 20);
        let (x, y) = (any_u64(), any_u64());
        let at = (x == 0) & (y == 1) | und & (x == 1) & (y == 0);
        let got = m.get_entry(x, y);
        log(m.entry_count());
        check((at & (got == k as f64 / 400.0)) | (!at & (got == 0.0)), "an entry is the number of edges in its block over the block's area");
        check((m.dimension() == 3) & (m.entry_count() == 1 + und as u64), "one entry per block with edges, one row per block");
    }
    fn h_approx_full() {
        let (g, und, k) = full();
        let t = f64::from_bits(any_u64());
        let a = approximate(&g, 20, t);
        let t = if t > 1.0 { 1.0 } else if t < 1e-18 { 1e-18 } else { t };
        let (x, y) = (any_u64(), any_u64());
        let at = (x == 0) & (y == 1) | und & (x == 1) & (y == 0);
        let want = k as f64 / 400.0 >= t;
        log(a.edge_count());
        check((a.does_edge_exist(x, y) == (want & at)) & (a.edge_count() == if want { 1 + und as u64 } else { 0 }) & (a.vertex_count() == 3) & (a.is_undirected() == und), "an edge exactly where the block's average reaches the threshold");
    }
    fn h_pool_many() { let (g, s, n, b) = many(); pooled(&g, &s, b, n) }
    fn h_approx_many() { let (g, s, n, b) = many(); approximated(&g, &s, b, n) }
    fn h_pool_dense() { let (g, s, n) = dense(); pooled(&g, &s, 3, n) }
    /// The query is one of the blocks: their averages, not their positions, are what varies.
    fn h_approx_dense() {
        let (g, s, n) = dense();
        let t = f64::from_bits(any_u64());
        let a = approximate(&g, 3, t);
        let t = if t > 1.0 { 1.0 } else if t < 1e-18 { 1e-18 } else { t };
        let k = in_block(&s, 3, 1, 0);
        let mut want = false;
        let mut i = 1;
        while i <= 9 { want |= (k == i) & (i as f64 / 9.0 >= t); i += 1; }
        let (x, y) = (any_u64(), any_u64());
        let at = (x == 1) & (y == 0) | s.und & (x == 0) & (y == 1);
        log(a.edge_count());
        check((a.does_edge_exist(x, y) == (want & at)) & (a.edge_count() == if want { 1 + s.und as u64 } else { 0 }) & (a.vertex_count() == 3) & (a.is_undirected() == s.und), "an edge exactly where the block's average reaches the threshold");
        if n == 9 { cover("exact") } else { cover("ragged") }
    }
    fn h_pool() { let (n, b) = small(); let (g, s) = filled(n); pooled(&g, &s, b, n) }
    fn h_pool_big() { let (n, b) = BIG[choose(14) as usize]; let (g, s) = filled(n); pooled(&g, &s, b, n) }
    /// Any vertex count and any block dimension, no edges.
    fn h_pool_dim() {
        let (mut g, mut s) = fresh();
        if choose(2) == 1 { let v = any_u64(); assume(v != u64::MAX); grow(&mut g, &mut s, v); cover("vertices") } else { cover("empty") }
        let b = any_u64();
        let m = pool(&g, b);
        log(m.dimension());
        check(m.entry_count() == 0, "no edges, no entries");
        if s.n == 0 { check(m.dimension() == 0, "an empty graph pools to an empty matrix") } else { check(m.dimension() == blocks(side(b, s.n), s.n), "the matrix has one row per block") }
    }
    fn h_approx() { let (n, b) = small(); let (g, s) = filled(n); approximated(&g, &s, b, n) }
    fn h_approx_big() { let (n, b) = BIG[choose(14) as usize]; let (g, s) = filled(n); approximated(&g, &s, b, n) }
    /// An empty graph, and any vertex count without edges.
    fn h_approx_dim() {
        let (mut g, mut s) = fresh();
        if choose(2) == 1 { let v = any_u64(); assume(v != u64::MAX); grow(&mut g, &mut s, v); cover("vertices") } else { cover("empty") }
        let b = any_u64();
        let a = approximate(&g, b, f64::from_bits(any_u64()));
        log(a.vertex_count());
        check((a.edge_count() == 0) & (a.is_undirected() == s.und), "no edges, no edges");
        if b <= 1 || s.n <= 1 { check(a.vertex_count() == s.n, "nothing to approximate: the graph itself") } else { check(a.vertex_count() == blocks(side(b, s.n), s.n), "one vertex per block") }
    }
}
