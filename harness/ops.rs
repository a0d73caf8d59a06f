// Symbolic histories of graph operations, applied to a graph and to the model.
#![allow(dead_code)]
use super::spec::Spec;
use graphrox::{Graph, GraphRepresentation};
use symrt::*;

/// Neighbours of the reserved id are ignored; whether the vertex they are given to is added then is left open.
#[inline(always)]
fn reserved(a: u64) { if param("reserved", 0) == 0 { assume(a != u64::MAX) } }
/// One symbolic operation on the graph and on the model.
#[inline(never)]
pub fn op(g: &mut Graph, s: &mut Spec) {
    match choose(param("kinds", 6)) {
        0 => { let (a, b) = (any_u64(), any_u64()); g.add_edge(a, b); s.add(a, b); cover("add_edge"); }
        1 => { let (a, b) = (any_u64(), any_u64()); g.delete_edge(a, b); s.del(a, b); cover("delete_edge"); }
        2 => { let v = any_u64(); g.add_vertex(v, None); s.grow(v, v != u64::MAX); cover("add_vertex none"); }
        3 => { let (v, a) = (any_u64(), any_u64()); reserved(a); g.add_vertex(v, Some(&[a])); s.add(v, a); cover("add_vertex one"); }
        4 => { let (v, a, b) = (any_u64(), any_u64(), any_u64()); reserved(a); reserved(b); g.add_vertex(v, Some(&[a, b])); s.add(v, a); s.add(v, b); cover("add_vertex two"); }
        _ => { let v = any_u64(); g.add_vertex(v, Some(&[])); s.grow(v, v != u64::MAX); cover("add_vertex empty"); }
    }
}
#[inline(never)]
pub fn start() -> (Graph, Spec) {
    order(choose(2) as u8);
    let und = choose(2) == 1;
    let mut g = if und { Graph::new_undirected() } else { Graph::new_directed() };
    let mut s = Spec::new(und);
    check(g.is_undirected() == und && g.vertex_count() == 0 && g.edge_count() == 0, "a new graph is empty and has the requested direction");
    // Many known edges first: out of one vertex, into one, scattered, or among few
    let (many, shape, mut i) = (param("fill", 0), if param("fill", 0) > 0 { choose(4) } else { 0 }, 0);
    while i < many {
        let (a, b) = match shape { 0 => (1000, 3 * i), 1 => (5 * i + 1, 7), 2 => (i * 37 % 1009, i * 91 % 2003), _ => (i % 17, i / 17) };
        g.add_edge(a, b);
        s.add(a, b);
        if i % 3 == 1 && i % 2 == 0 { g.delete_edge(a, b); s.del(a, b); }
        i += 1;
    }
    let mut i = 0;
    let n = param("ops", 3);
    while i < n { op(&mut g, &mut s); i += 1; }
    (g, s)
}
