use graphrox::{CompressedGraph, Graph, GraphRepresentation};
use symrt::*;
#[path = "/verif/harness/spec.rs"] mod spec;
#[path = "/verif/harness/ops.rs"] mod ops;
use ops::*;
use spec::Spec;

#[inline(always)]
fn clamp(level: u8) -> u64 { if level == 0 { 1 } else if level > 64 { 64 } else { level as u64 } }
/// Number of edges in the 8x8 block that holds (x, y).
#[inline(always)]
fn in_block(s: &Spec, x: u64, y: u64) -> u64 { let mut r = 0; for f in &s.e { r += (f.2 & (f.0 / 8 == x / 8) & (f.1 / 8 == y / 8)) as u64; } r }
/// The model with every edge of a block below the threshold removed.
#[inline(never)]
fn thin(s: &Spec, level: u64) -> Spec {
    let mut t = s.clone();
    for f in t.e.iter_mut() { f.2 &= in_block(s, f.0, f.1) >= level; }
    t
}
#[inline(always)]
fn same<G: GraphRepresentation>(g: &G, s: &Spec, x: u64, y: u64) -> bool { (g.does_edge_exist(x, y) == s.has(x, y)) & (g.edge_count() == s.edges()) & (g.vertex_count() == s.n) & (g.is_undirected() == s.und) }
#[inline(never)]
fn compress(g: &Graph, level: u8) -> CompressedGraph { g.compress(level) }
#[inline(never)]
fn decompress(c: &CompressedGraph) -> Graph { c.decompress() }

/// An id in one of the first `blocks` rows of blocks, anywhere in it.
#[inline(always)]
fn id(blocks: u64) -> u64 { choose(blocks) * 8 + (any_u8() & 7) as u64 }
#[inline(never)]
fn add(g: &mut Graph, s: &mut Spec, a: u64, b: u64) { g.add_edge(a, b); s.add(a, b); }
#[inline(never)]
fn del(g: &mut Graph, s: &mut Spec, a: u64, b: u64) { g.delete_edge(a, b); s.del(a, b); }
#[inline(never)]
fn grow(g: &mut Graph, s: &mut Spec, v: u64) { g.add_vertex(v, None); s.grow(v, true); }
#[inline(never)]
fn fresh() -> (Graph, Spec) {
    order(choose(2) as u8);
    let und = choose(2) == 1;
    (if und { Graph::new_undirected() } else { Graph::new_directed() }, Spec::new(und))
}
/// Some edges in a graph with one of a number of vertex counts below, at and above a multiple of the block size.
#[inline(never)]
fn few() -> (Graph, Spec) {
    let (mut g, mut s) = fresh();
    let sizes = [1u64, 2, 3, 5, 7, 8, 9, 16, 4, 6, 10, 12, 15, 17, 20, 24];
    let n = sizes[choose(param("sizes", 8)) as usize];
    if n == 1 && choose(2) == 1 { cover("no vertices"); return (g, s) }
    grow(&mut g, &mut s, n - 1);
    let mut i = 0;
    while i < param("edges", 2) {
        let (a, b) = (id((n + 7) / 8), id((n + 7) / 8));
        assume(a < n && b < n);
        add(&mut g, &mut s, a, b);
        i += 1;
    }
    cover(if n < 8 { "fewer than eight vertices" } else if n % 8 == 0 { "whole blocks" } else { "partial blocks" });
    (g, s)
}
/// One block with a run of `fill` edges in it, and one edge added or removed anywhere in it.
#[inline(never)]
fn dense() -> (Graph, Spec, u64) {
    let (mut g, mut s) = fresh();
    let at = 8;
    let fill = [0u64, 1, 32, 63, 64][choose(5) as usize];
    grow(&mut g, &mut s, at + 7 + choose(2));
    let mut i = 0;
    while i < fill { add(&mut g, &mut s, at + i % 8, i / 8); i += 1; }
    let (a, b) = (at + (any_u8() & 7) as u64, (any_u8() & 7) as u64);
    if choose(2) == 0 { add(&mut g, &mut s, a, b) } else { del(&mut g, &mut s, a, b) }
    if fill > 62 { cover("nearly full block") }
    (g, s, fill)
}
/// One edge between any two 64-bit ids of a graph of at least eight vertices.
#[inline(never)]
fn far() -> (Graph, Spec) {
    let (mut g, mut s) = fresh();
    grow(&mut g, &mut s, 7);
    let mut i = 0;
    while i < param("edges", 1) { let (a, b) = (any_u64(), any_u64()); assume(a != u64::MAX && b != u64::MAX); add(&mut g, &mut s, a, b); i += 1; }
    (g, s)
}
/// Many known edges over blocks of all kinds of fill.
#[inline(never)]
fn many() -> (Graph, Spec) {
    let (mut g, mut s) = fresh();
    let (k, shape) = (param("edges", 70), choose(3));
    let n = [20u64, 61, 1000][shape as usize];
    grow(&mut g, &mut s, n - 1);
    let mut i = 0;
    while i < k {
        let (a, b) = match shape { 0 => (i * i % n, (i * 7 + i / 20) % n), 1 => (8 + i % 8, 16 + i / 8), _ => ((i * 13 + 5) % n, i * i * 3 % n) };
        add(&mut g, &mut s, a, b);
        if i % 9 == 4 { del(&mut g, &mut s, a, b) }
        i += 1;
    }
    (g, s)
}
#[inline(never)]
fn lossless(g: &Graph, s: &Spec) {
    let c = compress(g, choose(2) as u8);
    let (x, y) = (any_u64(), any_u64());
    log(c.edge_count());
    log(c.vertex_count());
    check((c.compression_level() == 1) & same(&c, s, x, y), "at level one the compressed graph is the graph");
}
/// All edges are in one block, and for an undirected graph in its mirror image.
#[inline(never)]
fn levelled_block(g: &Graph, s: &Spec, level: u8) {
    let c = compress(g, level);
    let (x, y) = (any_u64(), any_u64());
    let keep = in_block(s, 8, 0) >= clamp(level);
    log(c.edge_count());
    let ok = (c.does_edge_exist(x, y) == (keep & s.has(x, y))) & (c.edge_count() == if keep { s.edges() } else { 0 }) & (c.vertex_count() == s.n) & (c.is_undirected() == s.und);
    check((c.compression_level() as u64 == clamp(level)) & ok, "a block is kept, whole, exactly when it has at least level edges");
}
#[inline(never)]
fn levelled(g: &Graph, s: &Spec, level: u8) {
    let c = compress(g, level);
    let (x, y) = (any_u64(), any_u64());
    let t = thin(s, clamp(level));
    log(c.edge_count());
    check((c.compression_level() as u64 == clamp(level)) & same(&c, &t, x, y), "exactly the blocks with at least level edges are kept, whole");
}
harnesses! {
    fn h_lossless() { let (g, s) = few(); lossless(&g, &s) }
    fn h_lossless_many() {
        let (g, s) = many();
        lossless(&g, &s);
        let d = decompress(&compress(&g, 1));
        let (x, y) = (any_u64(), any_u64());
        check(same(&d, &s, x, y), "decompressing gives back the graph");
    }
    fn h_level_many() { let (g, s) = many(); levelled(&g, &s, any_u8()) }
    fn h_lossless_dense() { let (g, s, _) = dense(); lossless(&g, &s) }
    fn h_lossless_far() { let (g, s) = far(); lossless(&g, &s) }
    fn h_level_far() { let (g, s) = far(); levelled(&g, &s, any_u8()) }
    /// One or two edges of a block anywhere in the graph.
    fn h_back() {
        let und = choose(2) == 1;
        let (mut g, mut s) = (if und { Graph::new_undirected() } else { Graph::new_directed() }, Spec::new(und));
        grow(&mut g, &mut s, 7);
        let (a, b) = (any_u64() & !7, any_u64() & !7);
        assume(a < !7 && b < !7);
        let (i, j) = (choose(8), choose(8));
        add(&mut g, &mut s, a + i, b + j);
        if choose(param("second", 1) + 1) == 1 { add(&mut g, &mut s, a + 5, b + 2); cover("two edges") }
        let c = compress(&g, 1);
        let d = decompress(&c);
        let (x, y) = (any_u64(), any_u64());
        log(d.edge_count());
        log(d.vertex_count());
        check(same(&d, &s, x, y), "decompressing gives back the graph");
    }
    fn h_level() { let (g, s) = few(); levelled(&g, &s, any_u8()) }
    fn h_level_dense() { let (g, s, fill) = dense(); let l = (fill + choose(4)) as u8; levelled_block(&g, &s, l.wrapping_sub(1)) }
}
