use graphrox::matrix::{CsrSquareMatrix, MatrixRepresentation};
use graphrox::{CompressedGraph, Graph, GraphRepresentation};
use graphrox_c::*;
use std::convert::TryFrom;
use std::ffi::{c_char, c_void};
use std::ptr::{null, null_mut};
use symrt::*;
#[path = "/verif/harness/spec.rs"] mod spec;
use spec::Spec;

// What a C program sees: arrays are read as the words gphrx.h declares, not
// through the Rust structs.
#[inline(always)]
unsafe fn word(p: *const c_void, i: usize) -> u64 { *(p as *const u64).add(i) }
/// Two arrays of words with the same elements of `w` words, in any order.
#[inline(never)]
unsafe fn same_sets(p: *const c_void, n: usize, w: usize, want: &[[u64; 3]]) -> bool {
    if n != want.len() { return false; }
    let mut ok = true;
    let mut i = 0;
    while i < n {
        let (mut found, mut once) = (false, true);
        for x in want { let mut e = true; let mut k = 0; while k < w { e &= word(p, i * w + k) == x[k]; k += 1; } found |= e; }
        let mut j = 0;
        while j < i { let mut e = true; let mut k = 0; while k < w { e &= word(p, i * w + k) == word(p, j * w + k); k += 1; } once &= !e; j += 1; }
        ok &= found & once;
        i += 1;
    }
    ok
}
#[inline(never)]
unsafe fn same_bytes(p: *const u8, n: usize, want: &[u8]) -> bool {
    if p.is_null() | (n != want.len()) { return false; }
    let mut ok = true;
    let mut i = 0;
    while i < n { ok &= *p.add(i) == want[i]; i += 1; }
    ok
}
/// Bytes with the same header and the same records of `w` words, in any order.
#[inline(never)]
unsafe fn same_records(p: *const u8, n: usize, want: &[u8], header: usize, w: usize) -> bool {
    if p.is_null() | (n != want.len()) { return false; }
    let mut ok = same_bytes(p, header, &want[..header]);
    let k = (n - header) / (8 * w);
    let mut i = 0;
    while i < k {
        let mut found = false;
        let mut j = 0;
        while j < k { found |= same_bytes(p.add(header + 8 * w * i), 8 * w, &want[header + 8 * w * j..header + 8 * w * (j + 1)]); j += 1; }
        ok &= found;
        i += 1;
    }
    ok
}
#[inline(never)]
unsafe fn same_text(p: *const c_char, want: &str) -> bool {
    if p.is_null() { return false; }
    let w = want.as_bytes();
    let mut ok = true;
    let mut i = 0;
    while i < w.len() { if *p.add(i) == 0 { return false; } ok &= *p.add(i) as u8 == w[i]; i += 1; }
    ok & (*p.add(i) == 0)
}
fn yes(b: i8) -> bool { check((b == 0) | (b == 1), "a truth value is 0 or 1"); b != 0 }

/// A C graph, the library graph of the same history, and the model.
struct Both { c: GphrxGraph, r: Graph, s: Spec }
#[inline(never)]
fn fresh() -> Both {
    let und = choose(2) == 1;
    let (c, r) = if und { (gphrx_new_undirected(), Graph::new_undirected()) } else { (gphrx_new_directed(), Graph::new_directed()) };
    Both { c, r, s: Spec::new(und) }
}
#[inline(never)]
fn op(b: &mut Both) { unsafe {
    match choose(param("kinds", 6)) {
        0 => { let (x, y) = (any_u64(), any_u64()); gphrx_add_edge(b.c, x, y); b.s.add(x, y); cover("add_edge"); }
        1 => { let (x, y) = (any_u64(), any_u64()); gphrx_delete_edge(b.c, x, y); b.s.del(x, y); cover("delete_edge"); }
        2 => { let v = any_u64(); gphrx_add_vertex(b.c, v, null(), 0); b.s.grow(v, v != u64::MAX); cover("add_vertex null"); }
        3 => { let (v, a) = (any_u64(), any_u64()); assume(a != u64::MAX); let l = [a]; gphrx_add_vertex(b.c, v, l.as_ptr(), 1); b.s.add(v, a); cover("add_vertex one"); }
        4 => { let (v, x, y) = (any_u64(), any_u64(), any_u64()); assume(x != u64::MAX && y != u64::MAX); let l = [x, y]; gphrx_add_vertex(b.c, v, l.as_ptr(), 2); b.s.add(v, x); b.s.add(v, y); cover("add_vertex two"); }
        _ => { let v = any_u64(); let l = [7u64]; gphrx_add_vertex(b.c, v, l.as_ptr(), 0); b.s.grow(v, v != u64::MAX); cover("add_vertex empty"); }
    }
} }
#[inline(never)]
fn history() -> Both {
    order(choose(2) as u8);
    let mut b = fresh();
    let mut i = 0;
    while i < param("ops", 2) { op(&mut b); i += 1; }
    b
}
/// A small graph built alike in both, with a given number of vertices.
#[inline(never)]
fn small(n: u64) -> Both {
    let mut b = fresh();
    grow(&mut b, n - 1);
    let mut i = 0;
    while i < param("edges", 1) {
        let (x, y) = (any_u8() as u64, any_u8() as u64);
        assume(x < n && y < n);
        edge(&mut b, x, y);
        i += 1;
    }
    b
}
#[inline(never)]
fn grow(b: &mut Both, v: u64) { unsafe { gphrx_add_vertex(b.c, v, null(), 0) } b.r.add_vertex(v, None); b.s.grow(v, true) }
#[inline(never)]
fn edge(b: &mut Both, x: u64, y: u64) { unsafe { gphrx_add_edge(b.c, x, y) } b.r.add_edge(x, y); b.s.add(x, y) }
#[inline(never)]
unsafe fn like_spec(c: GphrxGraph, s: &Spec, x: u64, y: u64) -> bool {
    (yes(gphrx_does_edge_exist(c, x, y)) == s.has(x, y)) & (gphrx_edge_count(c) == s.edges()) & (gphrx_vertex_count(c) == s.n) & (yes(gphrx_is_undirected(c)) == s.und)
}
#[inline(never)]
unsafe fn like_graph(c: GphrxGraph, g: &Graph, x: u64, y: u64) -> bool {
    (yes(gphrx_does_edge_exist(c, x, y)) == g.does_edge_exist(x, y)) & (gphrx_edge_count(c) == g.edge_count()) & (gphrx_vertex_count(c) == g.vertex_count()) & (yes(gphrx_is_undirected(c)) == g.is_undirected())
}
#[inline(never)]
unsafe fn like_compressed(c: GphrxCompressedGraph, g: &CompressedGraph, x: u64, y: u64) -> bool {
    (yes(gphrx_compressed_graph_does_edge_exist(c, x, y)) == g.does_edge_exist(x, y)) & (gphrx_compressed_graph_edge_count(c) == g.edge_count()) & (gphrx_compressed_graph_vertex_count(c) == g.vertex_count())
        & (yes(gphrx_compressed_graph_is_undirected(c)) == g.is_undirected()) & (gphrx_compressed_graph_compression_level(c) == g.compression_level()) & (gphrx_get_compressed_matrix_entry(c, x, y) == g.get_compressed_matrix_entry(x, y))
}
#[inline(always)]
fn bits(f: f64) -> u64 { f.to_bits() }
#[inline(never)]
unsafe fn like_matrix(c: GphrxCsrSquareMatrix, m: &CsrSquareMatrix<f64>, x: u64, y: u64) -> bool {
    (gphrx_matrix_dimension(c) == m.dimension()) & (gphrx_matrix_entry_count(c) == m.entry_count()) & (bits(gphrx_matrix_get_entry(c, x, y)) == bits(m.get_entry(x, y)))
}
fn near() -> (u64, u64) { (any_u8() as u64, any_u8() as u64) }

const NG: GphrxGraph = GphrxGraph { graph_ptr: null_mut() };
const NC: GphrxCompressedGraph = GphrxCompressedGraph { graph_ptr: null_mut() };
const NM: GphrxCsrSquareMatrix = GphrxCsrSquareMatrix { matrix_ptr: null_mut() };

/// Reads every byte of a buffer.
#[inline(never)]
unsafe fn touch(p: *const c_void, n: usize) { let mut s = 0u64; let mut i = 0; while i < n { s ^= *(p as *const u8).add(i) as u64; i += 1; } std::hint::black_box(s); }
#[inline(never)]
unsafe fn touch_text(p: *const c_char) { let mut i = 0; while *p.add(i) != 0 { i += 1; } log(i as u64); }
/// Uses a graph in every way, and frees what it was given.
#[inline(never)]
unsafe fn use_graph(g: GphrxGraph, x: u64) {
    match choose(8) {
        0 => { let mut n = 9; let p = gphrx_get_edge_list(g, &mut n); check(n as u64 == gphrx_edge_count(g), "the edge list has every edge"); touch(p as *const c_void, n * 16); free_gphrx_edge_list(p, n); }
        1 => { let mut n = 9; let p = gphrx_get_vertex_out_edges_list(g, x, &mut n); check(n as u64 == gphrx_get_vertex_out_degree(g, x), "the list has every neighbour"); touch(p as *const c_void, n * 8); free_gphrx_vertex_list(p, n); }
        2 => { let mut n = 9; let p = gphrx_get_vertex_in_edges_list(g, x, &mut n); check(n as u64 == gphrx_get_vertex_in_degree(g, x), "the list has every neighbour"); touch(p as *const c_void, n * 8); free_gphrx_vertex_list(p, n); }
        3 => { let mut n = 9; let p = gphrx_to_bytes(g, &mut n); touch(p as *const c_void, n); free_gphrx_bytes_buffer(p, n); }
        4 => if gphrx_vertex_count(g) <= param("text", 16) { let p = gphrx_matrix_string(g); touch_text(p); free_gphrx_string_buffer(p); }
        5 => { gphrx_add_edge(g, x, 3); gphrx_does_edge_exist(g, 3, x); }
        6 => { gphrx_delete_edge(g, x, x); gphrx_is_undirected(g); gphrx_vertex_count(g); }
        _ => { let l = [x, 1]; gphrx_add_vertex(g, 2, l.as_ptr(), 2); gphrx_add_vertex(g, 2, null(), 0); }
    }
}
#[inline(never)]
unsafe fn use_compressed(g: GphrxCompressedGraph, x: u64) {
    match choose(3) {
        0 => { let mut n = 9; let p = gphrx_compressed_graph_to_bytes(g, &mut n); touch(p as *const c_void, n); free_gphrx_bytes_buffer(p, n); }
        1 => if gphrx_compressed_graph_vertex_count(g) <= 16 { let p = gphrx_compressed_graph_matrix_string(g); touch_text(p); free_gphrx_string_buffer(p); }
        _ => { gphrx_compressed_graph_does_edge_exist(g, x, 1); gphrx_get_compressed_matrix_entry(g, x, 0); gphrx_compressed_graph_edge_count(g); gphrx_compressed_graph_is_undirected(g); gphrx_compressed_graph_compression_level(g); }
    }
}
#[inline(never)]
unsafe fn use_matrix(m: GphrxCsrSquareMatrix, x: u64) {
    match choose(4) {
        0 => { let mut n = 9; let p = gphrx_matrix_get_entry_list(m, &mut n); check(n as u64 == gphrx_matrix_entry_count(m), "the list has every entry"); touch(p as *const c_void, n * 24); free_gphrx_matrix_entry_list(p, n); }
        1 => { let p = gphrx_matrix_to_string(m); touch_text(p); free_gphrx_string_buffer(p); }
        2 => { let p = gphrx_matrix_to_string_with_precision(m, choose(2) as usize); touch_text(p); free_gphrx_string_buffer(p); }
        _ => { gphrx_matrix_get_entry(m, x, 1); gphrx_matrix_dimension(m); gphrx_matrix_entry_count(m); }
    }
}

harnesses! {
    // ---- X01: results
    fn h_queries() { unsafe {
        let b = history();
        let (x, y) = (any_u64(), any_u64());
        check(like_spec(b.c, &b.s, x, y), "edges, counts and direction are those of the history");
        check((gphrx_get_vertex_out_degree(b.c, x) == b.s.out_degree(x)) & (gphrx_get_vertex_in_degree(b.c, x) == b.s.in_degree(x)), "degrees are those of the history");
        log(gphrx_edge_count(b.c));
        free_gphrx_graph(b.c);
    } }
    fn h_lists() { unsafe {
        let b = history();
        let v = any_u64();
        let (mut n, mut m, mut e) = (77, 78, 79);
        let o = gphrx_get_vertex_out_edges_list(b.c, v, &mut n) as *const c_void;
        let i = gphrx_get_vertex_in_edges_list(b.c, v, &mut m) as *const c_void;
        let l = gphrx_get_edge_list(b.c, &mut e) as *const c_void;
        check((n as u64 == b.s.out_degree(v)) & (m as u64 == b.s.in_degree(v)) & (e as u64 == b.s.edges()), "lists are as long as there are edges");
        let mut ok = true;
        let mut k = 0;
        while k < n { ok &= b.s.has(v, word(o, k)); let mut j = 0; while j < k { ok &= word(o, j) != word(o, k); j += 1; } k += 1; }
        k = 0;
        while k < m { ok &= b.s.has(word(i, k), v); let mut j = 0; while j < k { ok &= word(i, j) != word(i, k); j += 1; } k += 1; }
        k = 0;
        while k < e { ok &= b.s.has(word(l, 2 * k), word(l, 2 * k + 1)); let mut j = 0; while j < k { ok &= (word(l, 2 * j) != word(l, 2 * k)) | (word(l, 2 * j + 1) != word(l, 2 * k + 1)); j += 1; } k += 1; }
        check(ok, "every listed edge is one, listed once");
        free_gphrx_vertex_list(o as *mut _, n);
        free_gphrx_vertex_list(i as *mut _, m);
        free_gphrx_edge_list(l as *mut _, e);
        free_gphrx_graph(b.c);
    } }
    /// Many known edges: out of one vertex, into one, or scattered.
    fn h_many() { unsafe {
        let mut b = fresh();
        let (what, shape) = (choose(6), choose(5));
        let n = if what > 3 { param("few", 40) } else { param("edges", 270) };
        let mut i = 0;
        if shape == 3 {
            let mut l = Vec::new();
            while i < n { l.push(2 * i + 1); i += 1; }
            gphrx_add_vertex(b.c, 1000, l.as_ptr(), l.len());
            b.r.add_vertex(1000, Some(&l));
        }
        while i < n {
            let (x, y) = match shape { 0 => (1000, 3 * i), 1 => (5 * i + 1, 7), 2 => (i * 37 % 1009, i * 91 % 2003), _ => (i % 14, i / 14) };
            gphrx_add_edge(b.c, x, y);
            b.r.add_edge(x, y);
            i += 1;
        }
        let mut k = 77;
        match what {
            0 => {
                let p = gphrx_get_edge_list(b.c, &mut k);
                let want: Vec<[u64; 3]> = (&b.r).into_iter().map(|(x, y)| [x, y, 0]).collect();
                check(same_sets(p as *const c_void, k, 2, &want), "the edges are the library's");
                free_gphrx_edge_list(p, k);
                cover("edges");
            }
            1 => {
                let v = [1000u64, 7, 8][choose(3) as usize];
                let p = gphrx_get_vertex_out_edges_list(b.c, v, &mut k);
                let want: Vec<[u64; 3]> = b.r.get_vertex_out_edges(v).into_iter().map(|x| [x, 0, 0]).collect();
                check(same_sets(p as *const c_void, k, 1, &want), "the out-neighbours are the library's");
                free_gphrx_vertex_list(p, k);
                let p = gphrx_get_vertex_in_edges_list(b.c, v, &mut k);
                let want: Vec<[u64; 3]> = b.r.get_vertex_in_edges(v).into_iter().map(|x| [x, 0, 0]).collect();
                check(same_sets(p as *const c_void, k, 1, &want), "the in-neighbours are the library's");
                free_gphrx_vertex_list(p, k);
                check((gphrx_get_vertex_out_degree(b.c, v) == b.r.get_vertex_out_degree(v)) & (gphrx_get_vertex_in_degree(b.c, v) == b.r.get_vertex_in_degree(v)), "the degrees are the library's");
                cover("vertices");
            }
            2 => {
                let p = gphrx_to_bytes(b.c, &mut k);
                check(k == 26 + 16 * gphrx_edge_count(b.c) as usize && k == b.r.to_bytes().unwrap().len(), "the bytes have every edge");
                let mut err = any_u8();
                let c = gphrx_from_bytes(p, k, &mut err);
                check(err == 0 && like_graph(c, &b.r, 1000, 3) && like_graph(c, &b.r, 7, 6), "the bytes are read back");
                free_gphrx_graph(c);
                free_gphrx_bytes_buffer(p, k);
                cover("bytes");
            }
            3 => {
                let m = gphrx_find_avg_pool_matrix(b.c, 1);
                let r = b.r.find_avg_pool_matrix(1);
                let p = gphrx_matrix_get_entry_list(m, &mut k);
                let want: Vec<[u64; 3]> = r.into_iter().map(|(e, c, r)| [bits(e), c, r]).collect();
                check(same_sets(p as *const c_void, k, 3, &want), "the entries are the library's");
                free_gphrx_matrix_entry_list(p, k);
                free_gphrx_matrix(m);
                cover("entries");
            }
            4 => {
                let c = gphrx_compress(b.c, 1);
                let p = gphrx_compressed_graph_to_bytes(c, &mut k);
                let r = b.r.compress(1);
                check(k == r.to_bytes().unwrap().len(), "the bytes have every block");
                let mut err = any_u8();
                let v = gphrx_compressed_graph_from_bytes(p, k, &mut err);
                check(err == 0 && like_compressed(v, &r, 1000, 3) && like_compressed(v, &r, 7, 6), "the bytes are read back");
                free_gphrx_bytes_buffer(p, k);
                free_gphrx_compressed_graph(v);
                free_gphrx_compressed_graph(c);
                cover("compressed");
            }
            _ => { let (x, y) = (any_u64(), any_u64()); assume(shape < 2 && (x == 1000 || y == 7)); check(like_graph(b.c, &b.r, x, y), "edges and counts are the library's"); cover("queries") }
        }
        free_gphrx_graph(b.c);
    } }
    /// A copy is equal to and independent of the original.
    fn h_duplicate() { unsafe {
        let b = history();
        let d = gphrx_duplicate(b.c);
        let (x, y, p, q) = (any_u64(), any_u64(), any_u64(), any_u64());
        let mut t = b.s.clone();
        if choose(2) == 1 { gphrx_add_edge(d, p, q); t.add(p, q) } else { gphrx_delete_edge(d, p, q); t.del(p, q) }
        check(like_spec(d, &t, x, y) & like_spec(b.c, &b.s, x, y), "a duplicate is a separate graph with the same edges");
        free_gphrx_graph(b.c);
        check(like_spec(d, &t, x, y), "a duplicate outlives the original");
        free_gphrx_graph(d);
    } }
    /// Everything derived from a graph is what the library derives.
    fn h_derived() { unsafe {
        let n = [1u64, 2, 3, 9][choose(param("sizes", 4)) as usize];
        let mut b = small(n);
        let (x, y) = near();
        match choose(5) {
            0 => {
                let mut k = 77;
                let p = gphrx_to_bytes(b.c, &mut k);
                check(same_records(p, k, &b.r.to_bytes().unwrap(), 26, 2), "the bytes are the library's");
                let mut err = any_u8();
                let c = gphrx_from_bytes(p, k, &mut err);
                check((err == 0) & like_graph(c, &b.r, x, y), "the bytes are read back");
                free_gphrx_graph(c);
                free_gphrx_bytes_buffer(p, k);
                cover("bytes");
            }
            1 => { let p = gphrx_matrix_string(b.c); check(same_text(p, &b.r.matrix_string().unwrap()), "the text is the library's"); free_gphrx_string_buffer(p); cover("text"); }
            2 => {
                let d = [0u64, 1, 2, 3, 5, u64::MAX][choose(6) as usize];
                let t = [0.0, 0.25, 0.3, 0.5, 1.0, f64::NAN][choose(6) as usize];
                let c = gphrx_approximate(b.c, d, t);
                check(like_graph(c, &b.r.approximate(d, t), x, y), "the approximation is the library's");
                free_gphrx_graph(c);
                cover("approximation");
            }
            3 => {
                let d = [0u64, 1, 2, 3, 5, u64::MAX][choose(6) as usize];
                let m = gphrx_find_avg_pool_matrix(b.c, d);
                let r = b.r.find_avg_pool_matrix(d);
                check(like_matrix(m, &r, x, y), "the averages are the library's");
                let w = gphrx_matrix_duplicate(m);
                free_gphrx_matrix(m);
                check(like_matrix(w, &r, x, y), "a duplicate has the same entries");
                let mut k = 77;
                let p = gphrx_matrix_get_entry_list(w, &mut k);
                let want: Vec<[u64; 3]> = r.into_iter().map(|(e, c, r)| [bits(e), c, r]).collect();
                check(same_sets(p as *const c_void, k, 3, &want), "the entries are the library's");
                free_gphrx_matrix_entry_list(p, k);
                free_gphrx_matrix(w);
                cover("averages");
            }
            _ => {
                edge(&mut b, 0, n - 1);
                let level = [0u8, 1, 2, 64, 255][choose(5) as usize];
                let c = gphrx_compress(b.c, level);
                let r = b.r.compress(level);
                check(like_compressed(c, &r, x, y), "the compressed graph is the library's");
                let d = gphrx_decompress(c);
                check(like_graph(d, &r.decompress(), x, y), "the decompressed graph is the library's");
                free_gphrx_graph(d);
                let w = gphrx_compressed_graph_duplicate(c);
                free_gphrx_compressed_graph(c);
                check(like_compressed(w, &r, x, y), "a duplicate is the same");
                let mut k = 77;
                let p = gphrx_compressed_graph_to_bytes(w, &mut k);
                check(same_records(p, k, &r.to_bytes().unwrap(), 42, 3), "the bytes are the library's");
                let mut err = any_u8();
                let v = gphrx_compressed_graph_from_bytes(p, k, &mut err);
                check((err == 0) & like_compressed(v, &r, x, y), "the bytes are read back");
                free_gphrx_bytes_buffer(p, k);
                free_gphrx_compressed_graph(v);
                free_gphrx_compressed_graph(w);
                cover("compressed");
            }
        }
        free_gphrx_graph(b.c);
    } }
    /// The same of graphs too large for most machine words, with every argument.
    fn h_derived_far() { unsafe {
        let n = [(1u64 << 40) + 5, u64::MAX][choose(2) as usize];
        let mut b = fresh();
        grow(&mut b, n - 1);
        let (x, y) = (any_u64(), any_u64());
        assume(x < n && y < n);
        edge(&mut b, x, y);
        let (x, y) = (any_u64(), any_u64());
        match choose(4) {
            0 => {
                let d = [1u64 << 16, 1 << 32, (1 << 33) + 3, 1 << 63][choose(4) as usize];
                let m = gphrx_find_avg_pool_matrix(b.c, d);
                check(like_matrix(m, &b.r.find_avg_pool_matrix(d), x, y), "the averages are the library's");
                free_gphrx_matrix(m);
                cover("averages");
            }
            1 => {
                let d = [1u64 << 16, 1 << 32, (1 << 33) + 3, 1 << 63][choose(4) as usize];
                let t = f64::from_bits(any_u64());
                let c = gphrx_approximate(b.c, d, t);
                check(like_graph(c, &b.r.approximate(d, t), x, y), "the approximation is the library's");
                free_gphrx_graph(c);
                cover("approximation");
            }
            2 => {
                let level = any_u8();
                let c = gphrx_compress(b.c, level);
                let r = b.r.compress(level);
                check(like_compressed(c, &r, x, y), "the compressed graph is the library's");
                let d = gphrx_decompress(c);
                check(like_graph(d, &r.decompress(), x, y), "the decompressed graph is the library's");
                free_gphrx_graph(d);
                check(gphrx_compressed_graph_matrix_string(c).is_null(), "no text where the library has none");
                free_gphrx_compressed_graph(c);
                cover("compressed");
            }
            _ => {
                check(gphrx_matrix_string(b.c).is_null(), "no text where the library has none");
                let mut k = 77;
                let p = gphrx_to_bytes(b.c, &mut k);
                check(same_records(p, k, &b.r.to_bytes().unwrap(), 26, 2), "the bytes are the library's");
                let mut err = any_u8();
                let c = gphrx_from_bytes(p, k, &mut err);
                check((err == 0) & like_graph(c, &b.r, x, y), "the bytes are read back");
                free_gphrx_graph(c);
                free_gphrx_bytes_buffer(p, k);
                cover("bytes");
            }
        }
        free_gphrx_graph(b.c);
    } }
    /// Texts of matrices and compressed graphs.
    fn h_texts() { unsafe {
        let n = [1u64, 2, 3, 9][choose(param("sizes", 4)) as usize];
        let mut b = fresh();
        grow(&mut b, n - 1);
        let (x, y) = (choose(n), choose(n));
        edge(&mut b, x, y);
        if choose(2) == 1 { edge(&mut b, 0, n - 1); }
        match choose(2) {
            0 => {
                let d = 1 + choose(3);
                let m = gphrx_find_avg_pool_matrix(b.c, d);
                let r = b.r.find_avg_pool_matrix(d);
                let p = gphrx_matrix_to_string(m);
                check(same_text(p, &format!("{}", r)), "the text is the library's");
                free_gphrx_string_buffer(p);
                let k = [0, 1, 2, 3, 4, 17, 256, 300][choose(if n < 3 { 8 } else { 5 }) as usize];
                let p = gphrx_matrix_to_string_with_precision(m, k);
                check(same_text(p, &r.to_string_with_precision(k).unwrap()), "the text is the library's");
                free_gphrx_string_buffer(p);
                free_gphrx_matrix(m);
                cover("averages");
            }
            _ => {
                let c = gphrx_compress(b.c, 1);
                let p = gphrx_compressed_graph_matrix_string(c);
                check(same_text(p, &b.r.compress(1).matrix_string().unwrap()), "the text is the library's");
                free_gphrx_string_buffer(p);
                free_gphrx_compressed_graph(c);
                cover("compressed");
            }
        }
        free_gphrx_graph(b.c);
    } }
    // ---- X02: null and bad arguments
    fn h_null_graph() { unsafe {
        let before = live();
        let (x, y, t) = (any_u64(), any_u64(), f64::from_bits(any_u64()));
        let l = [x, y];
        let mut n = any_u64() as usize;
        let len: *mut usize = if choose(2) == 1 { &mut n } else { null_mut() };
        match choose(19) {
            0 => check(gphrx_duplicate(NG).graph_ptr.is_null(), "null in, null out"),
            1 => check(gphrx_matrix_string(NG).is_null(), "null in, null out"),
            2 => { check(gphrx_to_bytes(NG, len).is_null(), "null in, null out"); check(len.is_null() || *len == 0, "the length is set to zero"); }
            3 => check(gphrx_is_undirected(NG) == 0, "null in, false out"),
            4 => check(gphrx_vertex_count(NG) == 0, "null in, zero out"),
            5 => check(gphrx_edge_count(NG) == 0, "null in, zero out"),
            6 => check(gphrx_does_edge_exist(NG, x, y) == 0, "null in, false out"),
            7 => check(gphrx_find_avg_pool_matrix(NG, x).matrix_ptr.is_null(), "null in, null out"),
            8 => check(gphrx_approximate(NG, x, t).graph_ptr.is_null(), "null in, null out"),
            9 => check(gphrx_compress(NG, x as u8).graph_ptr.is_null(), "null in, null out"),
            10 => { check(gphrx_get_edge_list(NG, len).is_null(), "null in, null out"); check(len.is_null() || *len == 0, "the length is set to zero"); }
            11 => { gphrx_add_vertex(NG, x, l.as_ptr(), choose(3) as usize); gphrx_add_vertex(NG, x, null(), y as usize); }
            12 => gphrx_add_edge(NG, x, y),
            13 => gphrx_delete_edge(NG, x, y),
            14 => { check(gphrx_get_vertex_in_edges_list(NG, x, len).is_null(), "null in, null out"); check(len.is_null() || *len == 0, "the length is set to zero"); }
            15 => { check(gphrx_get_vertex_out_edges_list(NG, x, len).is_null(), "null in, null out"); check(len.is_null() || *len == 0, "the length is set to zero"); }
            16 => check(gphrx_get_vertex_in_degree(NG, x) == 0, "null in, zero out"),
            17 => check(gphrx_get_vertex_out_degree(NG, x) == 0, "null in, zero out"),
            _ => { free_gphrx_graph(NG); free_gphrx_edge_list(null_mut(), x as usize); free_gphrx_vertex_list(null_mut(), x as usize); free_gphrx_string_buffer(null_mut()); free_gphrx_bytes_buffer(null_mut(), x as usize); }
        }
        check(live() == before, "nothing is allocated");
    } }
    fn h_null_others() { unsafe {
        let before = live();
        let (x, y) = (any_u64(), any_u64());
        let mut n = any_u64() as usize;
        let len: *mut usize = if choose(2) == 1 { &mut n } else { null_mut() };
        match choose(17) {
            0 => check(gphrx_compressed_graph_duplicate(NC).graph_ptr.is_null(), "null in, null out"),
            1 => check(gphrx_compressed_graph_matrix_string(NC).is_null(), "null in, null out"),
            2 => { check(gphrx_compressed_graph_to_bytes(NC, len).is_null(), "null in, null out"); check(len.is_null() || *len == 0, "the length is set to zero"); }
            3 => check(gphrx_compressed_graph_is_undirected(NC) == 0, "null in, false out"),
            4 => check(gphrx_compressed_graph_vertex_count(NC) == 0, "null in, zero out"),
            5 => check(gphrx_compressed_graph_edge_count(NC) == 0, "null in, zero out"),
            6 => check(gphrx_compressed_graph_does_edge_exist(NC, x, y) == 0, "null in, false out"),
            7 => check(gphrx_compressed_graph_compression_level(NC) == 0, "null in, zero out"),
            8 => check(gphrx_get_compressed_matrix_entry(NC, x, y) == 0, "null in, zero out"),
            9 => check(gphrx_decompress(NC).graph_ptr.is_null(), "null in, null out"),
            10 => check(gphrx_matrix_duplicate(NM).matrix_ptr.is_null(), "null in, null out"),
            11 => check(gphrx_matrix_dimension(NM) == 0, "null in, zero out"),
            12 => check(gphrx_matrix_entry_count(NM) == 0, "null in, zero out"),
            13 => check(bits(gphrx_matrix_get_entry(NM, x, y)) << 1 == 0, "null in, zero out"),
            14 => { check(gphrx_matrix_to_string(NM).is_null(), "null in, null out"); check(gphrx_matrix_to_string_with_precision(NM, x as usize).is_null(), "null in, null out"); }
            15 => { check(gphrx_matrix_get_entry_list(NM, len).is_null(), "null in, null out"); check(len.is_null() || *len == 0, "the length is set to zero"); }
            _ => { free_gphrx_compressed_graph(NC); free_gphrx_matrix(NM); free_gphrx_matrix_entry_list(null_mut(), x as usize); }
        }
        check(live() == before, "nothing is allocated");
    } }
    /// Lengths nobody asked for, and neighbour lists that are not there.
    fn h_null_len() { unsafe {
        let mut b = small(3);
        let x = any_u64();
        edge(&mut b, 0, 1);
        match choose(6) {
            0 => { let p = gphrx_to_bytes(b.c, null_mut()); check(same_records(p, 26 + 16 * b.s.edges() as usize, &b.r.to_bytes().unwrap(), 26, 2), "the length is optional"); free_gphrx_bytes_buffer(p, 26 + 16 * b.s.edges() as usize); }
            1 => { let p = gphrx_get_edge_list(b.c, null_mut()); let n = b.s.edges() as usize; touch(p as *const c_void, 16 * n); free_gphrx_edge_list(p, n); }
            2 => { let p = gphrx_get_vertex_out_edges_list(b.c, x, null_mut()); let n = b.s.out_degree(x) as usize; touch(p as *const c_void, 8 * n); free_gphrx_vertex_list(p, n); }
            3 => { let p = gphrx_get_vertex_in_edges_list(b.c, x, null_mut()); let n = b.s.in_degree(x) as usize; touch(p as *const c_void, 8 * n); free_gphrx_vertex_list(p, n); }
            4 => {
                let m = gphrx_find_avg_pool_matrix(b.c, 3);
                let p = gphrx_matrix_get_entry_list(m, null_mut());
                touch(p as *const c_void, 24);
                free_gphrx_matrix_entry_list(p, 1);
                free_gphrx_matrix(m);
                let c = gphrx_compress(b.c, 1);
                let p = gphrx_compressed_graph_to_bytes(c, null_mut());
                check(same_records(p, 42 + 24, &b.r.compress(1).to_bytes().unwrap(), 42, 3), "the length is optional");
                free_gphrx_bytes_buffer(p, 42 + 24);
                free_gphrx_compressed_graph(c);
            }
            _ => {
                let (v, n) = (any_u64(), any_u64());
                assume(n != 0);
                gphrx_add_vertex(b.c, v, null(), n as usize);
                let (p, q) = near();
                check(like_spec(b.c, &b.s, p, q), "a missing neighbour list changes nothing");
            }
        }
        free_gphrx_graph(b.c);
    } }
    fn h_parse_graph() { unsafe {
        let before = live();
        let n = choose(param("len", 42) + 1) as usize;
        let mut b: Vec<u8> = Vec::with_capacity(n);
        while b.len() < n { b.push(any_u8()); }
        let mut err = any_u8();
        let told = choose(2) == 1;
        let e: *mut u8 = if told { &mut err } else { null_mut() };
        let g = gphrx_from_bytes(if n == 0 && choose(2) == 1 { null() } else { b.as_ptr() }, n, e);
        log(g.graph_ptr.is_null() as u64);
        if told { check(err == g.graph_ptr.is_null() as u8, "the error flag says whether there is a graph"); }
        match Graph::try_from(b.as_slice()) {
            Ok(r) => { let (x, y) = near(); check(!g.graph_ptr.is_null() && like_graph(g, &r, x, y), "readable bytes give their graph"); cover("accepted") }
            Err(_) => { check(g.graph_ptr.is_null(), "unreadable bytes give no graph"); cover("rejected") }
        }
        free_gphrx_graph(g);
        drop(b);
        check(live() == before, "nothing is left allocated");
    } }
    fn h_parse_compressed() { unsafe {
        let before = live();
        let n = choose(param("len", 66) + 1) as usize;
        let mut b: Vec<u8> = Vec::with_capacity(n);
        while b.len() < n { b.push(any_u8()); }
        let mut err = any_u8();
        let told = choose(2) == 1;
        let e: *mut u8 = if told { &mut err } else { null_mut() };
        let g = gphrx_compressed_graph_from_bytes(if n == 0 && choose(2) == 1 { null() } else { b.as_ptr() }, n, e);
        log(g.graph_ptr.is_null() as u64);
        if told { check(err == g.graph_ptr.is_null() as u8, "the error flag says whether there is a graph"); }
        match CompressedGraph::try_from(b.as_slice()) {
            Ok(r) => { let (x, y) = near(); check(!g.graph_ptr.is_null() && like_compressed(g, &r, x, y), "readable bytes give their graph"); cover("accepted") }
            Err(_) => { check(g.graph_ptr.is_null(), "unreadable bytes give no graph"); cover("rejected") }
        }
        free_gphrx_compressed_graph(g);
        drop(b);
        check(live() == before, "nothing is left allocated");
    } }
    /// The bytes of a small graph with any one byte replaced.
    fn h_parse_changed() { unsafe {
        let mut g = if choose(2) == 1 { Graph::new_undirected() } else { Graph::new_directed() };
        g.add_vertex(9, None);
        g.add_edge(1, 2);
        let plain = choose(2) == 1;
        let mut b = if plain { g.to_bytes().unwrap() } else { g.compress(1).to_bytes().unwrap() };
        let i = choose(b.len() as u64) as usize;
        b[i] = any_u8();
        let mut err = any_u8();
        let (x, y) = near();
        if plain {
            let c = gphrx_from_bytes(b.as_ptr(), b.len(), &mut err);
            check(err == c.graph_ptr.is_null() as u8, "the error flag says whether there is a graph");
            match Graph::try_from(b.as_slice()) {
                Ok(r) => { check(!c.graph_ptr.is_null() && like_graph(c, &r, x, y), "readable bytes give their graph"); cover("accepted") }
                Err(_) => { check(c.graph_ptr.is_null(), "unreadable bytes give no graph"); cover("rejected") }
            }
            free_gphrx_graph(c);
        } else {
            let c = gphrx_compressed_graph_from_bytes(b.as_ptr(), b.len(), &mut err);
            check(err == c.graph_ptr.is_null() as u8, "the error flag says whether there is a graph");
            match CompressedGraph::try_from(b.as_slice()) {
                Ok(r) => { check(!c.graph_ptr.is_null() && like_compressed(c, &r, x, y), "readable bytes give their graph"); cover("accepted compressed") }
                Err(_) => { check(c.graph_ptr.is_null(), "unreadable bytes give no graph"); cover("rejected compressed") }
            }
            free_gphrx_compressed_graph(c);
        }
    } }
    fn h_parse_null() { unsafe {
        let n = any_u64();
        assume(n != 0);
        let mut err = any_u8();
        let told = choose(2) == 1;
        let e: *mut u8 = if told { &mut err } else { null_mut() };
        let bad = if choose(2) == 1 { gphrx_from_bytes(null(), n as usize, e).graph_ptr.is_null() } else { gphrx_compressed_graph_from_bytes(null(), n as usize, e).graph_ptr.is_null() };
        check(bad & (!told | (err == 1)), "missing bytes are an error");
    } }
    // ---- X03: ownership
    fn h_lifecycle() { unsafe {
        let before = live();
        order(choose(2) as u8);
        let mut b = fresh();
        let mut i = 0;
        while i < param("ops", 1) { op(&mut b); i += 1; }
        let g = b.c;
        let x = any_u64();
        let d = gphrx_duplicate(g);
        if choose(2) == 1 { free_gphrx_graph(g); use_graph(d, x); free_gphrx_graph(d); } else { free_gphrx_graph(d); use_graph(g, x); free_gphrx_graph(g); }
        drop(b);
        check(live() == before, "everything is released");
    } }
    /// Objects made from others, used after those are gone.
    fn h_offspring() { unsafe {
        let before = live();
        order(choose(2) as u8);
        let n = [1u64, 3, 9][choose(3) as usize];
        let b = small(n);
        let g = b.c;
        let x = any_u8() as u64;
        match choose(5) {
            0 => { let a = gphrx_approximate(g, 1 + choose(3), 0.25); free_gphrx_graph(g); use_graph(a, x); free_gphrx_graph(a); cover("approximation") }
            1 => { let m = gphrx_find_avg_pool_matrix(g, 1 + choose(3)); free_gphrx_graph(g); let w = gphrx_matrix_duplicate(m); free_gphrx_matrix(m); use_matrix(w, x); free_gphrx_matrix(w); cover("averages") }
            2 => { let c = gphrx_compress(g, 1 + choose(2) as u8); free_gphrx_graph(g); let w = gphrx_compressed_graph_duplicate(c); free_gphrx_compressed_graph(c); use_compressed(w, x); free_gphrx_compressed_graph(w); cover("compressed") }
            3 => { let c = gphrx_compress(g, 1); let d = gphrx_decompress(c); free_gphrx_compressed_graph(c); free_gphrx_graph(g); use_graph(d, x); free_gphrx_graph(d); cover("decompressed") }
            _ => {
                let mut k = 9;
                let mut err = 7;
                if choose(2) == 1 {
                    let p = gphrx_to_bytes(g, &mut k);
                    free_gphrx_graph(g);
                    let d = gphrx_from_bytes(p, k, &mut err);
                    free_gphrx_bytes_buffer(p, k);
                    use_graph(d, x);
                    free_gphrx_graph(d);
                } else {
                    let c = gphrx_compress(g, 1);
                    free_gphrx_graph(g);
                    let p = gphrx_compressed_graph_to_bytes(c, &mut k);
                    free_gphrx_compressed_graph(c);
                    let d = gphrx_compressed_graph_from_bytes(p, k, &mut err);
                    free_gphrx_bytes_buffer(p, k);
                    use_compressed(d, x);
                    free_gphrx_compressed_graph(d);
                }
                cover("bytes");
            }
        }
        drop(b);
        check(live() == before, "everything is released");
    } }
    /// Arrays, texts and bytes outlive the object they came from.
    fn h_outlive() { unsafe {
        let before = live();
        let n = [1u64, 3, 9][choose(3) as usize];
        let b = small(n);
        let g = b.c;
        let x = any_u8() as u64;
        let mut k = 9;
        match choose(5) {
            0 => { let p = gphrx_get_edge_list(g, &mut k); free_gphrx_graph(g); touch(p as *const c_void, 16 * k); free_gphrx_edge_list(p, k); cover("edges") }
            1 => { let p = if choose(2) == 1 { gphrx_get_vertex_out_edges_list(g, x, &mut k) } else { gphrx_get_vertex_in_edges_list(g, x, &mut k) }; free_gphrx_graph(g); touch(p as *const c_void, 8 * k); free_gphrx_vertex_list(p, k); cover("vertices") }
            2 => { let p = gphrx_to_bytes(g, &mut k); free_gphrx_graph(g); touch(p as *const c_void, k); free_gphrx_bytes_buffer(p, k); cover("bytes") }
            3 => { let p = gphrx_matrix_string(g); free_gphrx_graph(g); touch_text(p); free_gphrx_string_buffer(p); cover("text") }
            _ => {
                let m = gphrx_find_avg_pool_matrix(g, 2);
                free_gphrx_graph(g);
                match choose(2) {
                    0 => { let p = gphrx_matrix_get_entry_list(m, &mut k); free_gphrx_matrix(m); touch(p as *const c_void, 24 * k); free_gphrx_matrix_entry_list(p, k); }
                    _ => { let p = gphrx_matrix_to_string(m); free_gphrx_matrix(m); touch_text(p); free_gphrx_string_buffer(p); }
                }
                cover("entries");
            }
        }
        drop(b);
        check(live() == before, "everything is released");
    } }
}
