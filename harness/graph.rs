use graphrox::GraphRepresentation;
use symrt::*;
#[path = "/verif/harness/spec.rs"] mod spec;
#[path = "/verif/harness/ops.rs"] mod ops;
use ops::*;

harnesses! {
    fn h_edges() {
        let (g, s) = start();
        let (x, y) = (any_u64(), any_u64());
        let got = g.does_edge_exist(x, y);
        log(got as u64);
        check(got == s.has(x, y), "an edge exists exactly when the last operation that named it added it");
        check(g.is_undirected() == s.und, "the direction never changes");
    }
    fn h_counts() {
        let (g, s) = start();
        log(g.edge_count());
        log(g.vertex_count());
        check(g.edge_count() == s.edges(), "edge_count is the number of ordered pairs that are edges");
        check(g.vertex_count() == s.n, "vertex_count is one more than the largest id ever added");
    }
    fn h_symmetry() {
        let (g, s) = start();
        assume(s.und);
        let (x, y) = (any_u64(), any_u64());
        check(g.does_edge_exist(x, y) == g.does_edge_exist(y, x), "undirected adjacency is symmetric");
    }
    fn h_adjacency() {
        let (g, s) = start();
        let v = if param("known", 0) == 1 { [1000, 7, 12][choose(3) as usize] } else { any_u64() };
        let o = g.get_vertex_out_edges(v);
        let i = g.get_vertex_in_edges(v);
        log(o.len() as u64);
        log(i.len() as u64);
        let mut ok = true;
        let mut k = 0;
        while k < o.len() {
            ok &= s.has(v, o[k]);
            let mut j = 0;
            while j < k { ok &= o[j] != o[k]; j += 1; }
            k += 1;
        }
        check(ok, "every listed out-neighbour is an edge, listed once");
        let mut ok = true;
        k = 0;
        while k < i.len() {
            ok &= s.has(i[k], v);
            let mut j = 0;
            while j < k { ok &= i[j] != i[k]; j += 1; }
            k += 1;
        }
        check(ok, "every listed in-neighbour is an edge, listed once");
        let (od, id) = (s.out_degree(v), s.in_degree(v));
        check((o.len() as u64 == od) & (i.len() as u64 == id), "every neighbour is listed");
        check(g.get_vertex_out_degree(v) == od, "out-degree is the number of out-neighbours");
        check(g.get_vertex_in_degree(v) == id, "in-degree is the number of in-neighbours");
    }
    fn h_iter() {
        let (g, s) = start();
        let mut seen: Vec<(u64, u64)> = Vec::new();
        let mut ok = true;
        let mut once = true;
        for (a, b) in &g {
            ok &= s.has(a, b);
            let mut j = 0;
            while j < seen.len() { once &= !((seen[j].0 == a) & (seen[j].1 == b)); j += 1; }
            seen.push((a, b));
        }
        check(ok, "every iterated pair is an edge");
        check(once, "no edge is iterated twice");
        log(seen.len() as u64);
        check(seen.len() as u64 == s.edges(), "every edge is iterated");
    }
    fn h_clone() {
        let (mut g, mut s) = start();
        // Known vertices above the many known edges
        let known = param("known", 0) > 0;
        if known && choose(2) == 1 { g.add_vertex(5000, None); s.grow(5000, true); }
        let mut c = g.clone();
        let mut g = g;
        let mut t = s.clone();
        let which = choose(2) == 1;
        if known {
            let (h, a, b) = (if which { &mut c } else { &mut g }, [1000, 6][choose(2) as usize], [7, 30][choose(2) as usize]);
            if choose(2) == 1 { h.add_edge(a, b); t.add(a, b); } else { h.delete_edge(a, b); t.del(a, b); }
        } else if which { op(&mut c, &mut t); } else { op(&mut g, &mut t); }
        let (new, old) = if which { (&c, &g) } else { (&g, &c) };
        let (x, y) = if known { ([1000, 6][choose(2) as usize], [7, 30][choose(2) as usize]) } else { (any_u64(), any_u64()) };
        check((new.does_edge_exist(x, y) == t.has(x, y)) & (new.edge_count() == t.edges()) & (new.vertex_count() == t.n) & (new.is_undirected() == s.und), "the changed graph reflects the change");
        check((old.does_edge_exist(x, y) == s.has(x, y)) & (old.edge_count() == s.edges()) & (old.vertex_count() == s.n) & (old.is_undirected() == s.und), "the other graph is unaffected");
    }
}
