// Compressed graphs made block by block, and their bytes.
use graphrox::error::GraphRoxError;
use graphrox::builder::CompressedGraphBuilder;
use graphrox::{CompressedGraph, GraphRepresentation};
use std::convert::TryFrom;
use symrt::*;

const HEADER: usize = 42;

/// Model of a compressed graph: blocks (bits, column, row) at distinct positions, bits possibly zero.
#[derive(Clone)]
struct Blocks { und: bool, n: u64, level: u64, b: Vec<(u64, u64, u64)> }
impl Blocks {
    #[inline(always)]
    fn at(&self, c: u64, r: u64) -> u64 { let mut v = 0; for b in &self.b { v |= if (b.1 == c) & (b.2 == r) { b.0 } else { 0 }; } v }
    #[inline(always)]
    fn has(&self, x: u64, y: u64) -> bool { self.at(x / 8, y / 8) >> ((y % 8) * 8 + x % 8) & 1 == 1 }
    #[inline(always)]
    fn edges(&self) -> u64 { let mut n = 0; for b in &self.b { n += ones(b.0); } n }
    #[inline(always)]
    fn count(&self) -> u64 { let mut n = 0; for b in &self.b { n += (b.0 != 0) as u64; } n }
    #[inline(always)]
    fn distinct(&self, c: u64, r: u64) -> bool { let mut ok = true; for b in &self.b { ok &= !((b.1 == c) & (b.2 == r)); } ok }
}
#[inline(always)]
fn ones(v: u64) -> u64 { v.count_ones() as u64 }
#[inline(always)]
fn dim(n: u64) -> u64 { let d = n / 8 + (n % 8 != 0) as u64; if d == 0 { 1 } else { d } }
#[inline(always)]
fn clamp(level: u8) -> u64 { if level == 0 { 1 } else if level > 64 { 64 } else { level as u64 } }
#[inline(never)]
fn flip(e: u64) -> u64 { let (mut t, mut i) = (0, 0); while i < 64 { t |= (e >> i & 1) << ((i % 8) * 8 + i / 8); i += 1; } t }
#[inline(never)]
fn add(g: &mut CompressedGraphBuilder, s: &mut Blocks, e: u64, c: u64, r: u64, told: bool) {
    g.add_compressed_matrix_entry(e, c, r, if told { Some(ones(e)) } else { None });
    s.b.push((e, c, r));
}
#[inline(never)]
fn fresh(n: u64) -> (CompressedGraphBuilder, Blocks) {
    order(choose(param("orders", 2)) as u8);
    let und = choose(2) == 1;
    let level = any_u8();
    (CompressedGraphBuilder::new(und, n, level), Blocks { und, n, level: clamp(level), b: Vec::new() })
}
/// Blocks of arbitrary bits at arbitrary distinct positions within the graph.
#[inline(never)]
fn build(blocks: u64, inside: bool) -> (CompressedGraph, Blocks) {
    let n = any_u64();
    let (mut g, mut s) = fresh(n);
    let told = choose(2) == 1;
    let mut i = 0;
    while i < blocks {
        let (e, c, r) = (any_u64(), any_u64(), any_u64());
        assume(c != u64::MAX && r != u64::MAX);
        if inside { assume(c < dim(n)); assume(r < dim(n)); }
        assume(s.distinct(c, r));
        add(&mut g, &mut s, e, c, r, told);
        i += 1;
    }
    (unsafe { g.finish() }, s)
}
#[inline(always)]
fn header_ok(g: &CompressedGraph, s: &Blocks) -> bool { (g.edge_count() == s.edges()) & (g.vertex_count() == s.n) & (g.is_undirected() == s.und) & (g.compression_level() as u64 == s.level) }

fn be(b: &[u8], at: usize, n: usize) -> u64 {
    let mut w = [0u8; 8];
    if n == 8 { w.copy_from_slice(&b[at..at + 8]); u64::from_be_bytes(w) } else { w[4..].copy_from_slice(&b[at..at + 4]); u64::from_be_bytes(w) }
}
/// Do all bits of a block lie inside a graph of n vertices?
#[inline(never)]
fn fits(e: u64, c: u64, r: u64, n: u64) -> bool {
    let (mut cols, mut rows, mut i) = ([false; 8], [false; 8], 0);
    let inside = |b: u64, i: u64| (b < n >> 3) | ((b == n >> 3) & (i < (n & 7)));
    while i < 8 { cols[i as usize] = inside(c, i); rows[i as usize] = inside(r, i); i += 1; }
    let (mut ok, mut i) = (true, 0usize);
    while i < 64 { ok &= (e >> i & 1 == 0) | (cols[i % 8] & rows[i / 8]); i += 1; }
    ok
}
/// What the documented format says about `b`.
#[inline(never)]
fn expect(b: &[u8]) -> (bool, Blocks) {
    let mut s = Blocks { und: false, n: 0, level: 0, b: Vec::new() };
    if b.len() < HEADER || (b.len() - HEADER) % 24 != 0 { return (false, s); }
    let k = (b.len() - HEADER) / 24;
    s.und = b[40] == 1;
    s.level = b[41] as u64;
    s.n = be(b, 32, 8);
    let d = be(b, 8, 8);
    let mut ok = (be(b, 0, 4) == 0x71ff7aed) & (be(b, 4, 4) == 2) & (d == dim(s.n)) & (be(b, 16, 8) == k as u64) & (b[40] <= 1) & (b[41] >= 1) & (b[41] <= 64);
    let mut i = 0;
    while i < k {
        let (e, c, r) = (be(b, HEADER + 24 * i, 8), be(b, HEADER + 24 * i + 8, 8), be(b, HEADER + 24 * i + 16, 8));
        ok &= (e != 0) & (c < d) & (r < d) & s.distinct(c, r) & fits(e, c, r, s.n);
        s.b.push((e, c, r));
        i += 1;
    }
    ok &= be(b, 24, 8) == s.edges();
    for f in &s.b { ok &= !s.und | (s.at(f.2, f.1) == flip(f.0)); }
    (ok, s)
}
/// Bytes of the documented layout with every field arbitrary.
#[inline(never)]
fn shaped(k: u64) -> Vec<u8> {
    let mut v = Vec::with_capacity(HEADER + 24 * k as usize);
    v.extend_from_slice(&any_u32().to_be_bytes());
    v.extend_from_slice(&any_u32().to_be_bytes());
    let mut i = 0;
    while i < 4 { v.extend_from_slice(&any_u64().to_be_bytes()); i += 1; }
    v.push(any_u8());
    v.push(any_u8());
    let mut i = 0;
    while i < 3 * k { v.extend_from_slice(&any_u64().to_be_bytes()); i += 1; }
    v
}
#[inline(never)]
fn judge(b: &[u8], (valid, s): (bool, Blocks)) {
    match CompressedGraph::try_from(b) {
        Ok(g) => {
            log(1);
            cover("accepted");
            check(valid, "accepted bytes are well formed");
            let (c, r) = (any_u64(), any_u64());
            log(g.edge_count());
            log(g.vertex_count());
            check(header_ok(&g, &s) & (g.get_compressed_matrix_entry(c, r) == s.at(c, r)), "the compressed graph is the one the bytes describe");
        }
        Err(e) => {
            log(0);
            cover("rejected");
            check(!valid, "well-formed bytes are accepted");
            check(matches!(e, GraphRoxError::InvalidFormat(_)), "rejected bytes are reported as an invalid format");
        }
    }
}
#[inline(never)]
fn roundtrip(g: &CompressedGraph, s: &Blocks) {
    let b = match g.to_bytes() { Ok(b) => b, Err(_) => { check(false, "a compressed graph can be written"); return } };
    let k = concretize(s.count());
    check(b.len() as u64 == HEADER as u64 + 24 * k, "the length is the header and 24 bytes per block");
    check((be(&b, 0, 4) == 0x71ff7aed) & (be(&b, 4, 4) == 2) & (be(&b, 8, 8) == dim(s.n)) & (be(&b, 16, 8) == k) & (be(&b, 24, 8) == s.edges()) & (be(&b, 32, 8) == s.n) & (b[40] == s.und as u8) & (b[41] as u64 == s.level), "the header describes the compressed graph");
    let (mut ok, mut i) = (true, 0usize);
    while i < k as usize {
        let (e, c, r) = (be(&b, HEADER + 24 * i, 8), be(&b, HEADER + 24 * i + 8, 8), be(&b, HEADER + 24 * i + 16, 8));
        ok &= (e != 0) & (s.at(c, r) == e);
        let mut j = 0;
        while j < i { ok &= !((c == be(&b, HEADER + 24 * j + 8, 8)) & (r == be(&b, HEADER + 24 * j + 16, 8))); j += 1; }
        i += 1;
    }
    check(ok, "the bytes list every block once");
    match CompressedGraph::try_from(b.as_slice()) {
        Ok(h) => {
            let (c, r) = (any_u64(), any_u64());
            log(h.edge_count());
            log(h.vertex_count());
            check(header_ok(&h, s) & (h.get_compressed_matrix_entry(c, r) == s.at(c, r)), "reading the bytes gives back the compressed graph");
        }
        Err(_) => check(false, "the bytes can be read back"),
    }
}
/// A compressed graph whose blocks lie within it: any bits for directed graphs, mirrored ones for undirected graphs.
#[inline(never)]
fn proper(blocks: u64) -> (CompressedGraph, Blocks) {
    let n = any_u64();
    let (mut g, mut s) = fresh(n);
    let mut i = 0;
    while i < blocks {
        let (e, c, r) = (any_u64(), any_u64(), any_u64());
        assume(e != 0 && c < dim(n) && r < dim(n));
        assume(s.distinct(c, r));
        assume(fits(e, c, r, n));
        if s.und {
            assume(s.distinct(r, c));
            if choose(2) == 0 { assume(c == r); assume(flip(e) == e); add(&mut g, &mut s, e, c, r, false); cover("diagonal"); }
            else { assume(c != r); add(&mut g, &mut s, e, c, r, false); add(&mut g, &mut s, flip(e), r, c, false); cover("mirrored"); }
        } else { add(&mut g, &mut s, e, c, r, false); cover("directed"); }
        i += 1;
    }
    (unsafe { g.finish() }, s)
}

/// Many known blocks in a graph of any vertex count that holds them.
#[inline(never)]
fn many(k: u64, n: u64) -> (CompressedGraph, Blocks) {
    let (mut g, mut s) = fresh(n);
    let mut i = 0;
    while i < k {
        let (e, c, r) = ((i + 1).wrapping_mul(0x9e3779b97f4a7c15), i * 5 % 47, 50 + i * 3 % 31);
        add(&mut g, &mut s, e, c, r, i % 2 == 0);
        if s.und { add(&mut g, &mut s, flip(e), r, c, false); }
        i += 1;
    }
    (unsafe { g.finish() }, s)
}
#[inline(never)]
fn bytes_of(s: &Blocks) -> Vec<u8> {
    let mut v = Vec::new();
    v.extend_from_slice(&0x71ff7aedu32.to_be_bytes());
    v.extend_from_slice(&2u32.to_be_bytes());
    for x in [dim(s.n), s.b.len() as u64, s.edges(), s.n] { v.extend_from_slice(&x.to_be_bytes()); }
    v.push(s.und as u8);
    v.push(s.level as u8);
    for b in &s.b { for x in [b.0, b.1, b.2] { v.extend_from_slice(&x.to_be_bytes()); } }
    v
}
harnesses! {
    fn h_many() {
        let n = any_u64();
        assume(n >= 1000 && n < u64::MAX - 8);
        let (g, s) = many(param("blocks", 20), n);
        roundtrip(&g, &s);
        let (x, y) = (any_u64(), any_u64());
        check(g.does_edge_exist(x, y) == s.has(x, y), "an edge exists exactly when its bit of its block is set");
    }
    fn h_many_back() {
        let (g, s) = many(param("blocks", 3), 1000);
        let d = g.decompress();
        let (x, y) = (any_u64(), any_u64());
        check((d.does_edge_exist(x, y) == s.has(x, y)) & (d.edge_count() == s.edges()) & (d.vertex_count() == s.n) & (d.is_undirected() == s.und), "decompression keeps the edges, counts and direction");
    }
    /// Many blocks, and any one field replaced.
    fn h_parse_many() {
        let (_, mut s) = many(param("blocks", 12), 1000);
        s.level = 7;
        let k = s.b.len() as u64;
        let mut b = bytes_of(&s);
        let at = match choose(9) { 0 => 0, 1 => 8, 2 => 16, 3 => 24, 4 => 32, 5 => 40, f => HEADER + 24 * [0, k / 2, k - 1][f as usize - 6] as usize };
        if at == 40 { b[at + choose(2) as usize] = any_u8(); }
        else { let w = any_u64().to_be_bytes(); let at = if at > 40 { at + 8 * choose(3) as usize } else { at }; b[at..at + 8].copy_from_slice(&w); }
        judge(&b, expect(&b));
    }
    fn h_build() {
        let (g, s) = build(choose(param("blocks", 2) + 1), false);
        let (c, r) = (any_u64(), any_u64());
        log(g.edge_count());
        check(header_ok(&g, &s) & (g.get_compressed_matrix_entry(c, r) == s.at(c, r)), "the compressed graph is the blocks given to the builder");
        let mut d = dim(s.n);
        for b in &s.b { let (c, r) = (b.1 + 1, b.2 + 1); d = if c > d { c } else { d }; d = if r > d { r } else { d }; }
        match g.to_bytes() { Ok(b) => check(be(&b, 8, 8) == d, "the dimension covers the graph and every block given"), Err(_) => check(false, "a compressed graph can be written") }
    }
    fn h_lookup() {
        let (g, s) = build(choose(param("blocks", 2) + 1), false);
        let (x, y) = (any_u64(), any_u64());
        let (h, e) = (g.does_edge_exist(x, y), g.get_compressed_matrix_entry(x / 8, y / 8));
        log(h as u64);
        check((h == s.has(x, y)) & (h == (e >> ((y % 8) * 8 + x % 8) & 1 == 1)), "an edge exists exactly when its bit of its block is set");
    }
    fn h_decompress() {
        let n = any_u64();
        let (mut g, mut s) = fresh(n);
        let (p, q) = (choose(64), [0u64, 7, 9, 34, 56, 63][choose(param("others", 6)) as usize]);
        let e = 1u64 << p | 1u64 << q;
        let (c, r) = (any_u64(), any_u64());
        assume(c < dim(n) && r < dim(n) && fits(e, c, r, n));
        if s.und {
            if choose(2) == 0 { assume(c == r); add(&mut g, &mut s, e | flip(e), c, r, false); }
            else { assume(c != r); add(&mut g, &mut s, e, c, r, false); add(&mut g, &mut s, flip(e), r, c, false); }
            cover("undirected");
        } else { add(&mut g, &mut s, e, c, r, false); cover("directed"); }
        let c = unsafe { g.finish() };
        let d = c.decompress();
        let (x, y) = (any_u64(), any_u64());
        log(d.edge_count());
        log(d.vertex_count());
        check((d.does_edge_exist(x, y) == s.has(x, y)) & (c.does_edge_exist(x, y) == s.has(x, y)), "an edge exists after decompression exactly when its bit is set");
        check((d.edge_count() == s.edges()) & (d.vertex_count() == n) & (d.is_undirected() == s.und), "decompression keeps counts and direction");
    }
    fn h_roundtrip() {
        let (g, s) = proper(choose(param("blocks", 1) + 1));
        roundtrip(&g, &s);
    }
    fn h_parse_any() {
        let len = choose(param("len", 92) + 1) as usize;
        let mut b = shaped((len.saturating_sub(HEADER) as u64 + 23) / 24);
        b.truncate(len);
        judge(&b, expect(&b));
    }
    fn h_parse_blocks() {
        let b = shaped(choose(param("blocks", 2) + 1));
        judge(&b, expect(&b));
    }
}
