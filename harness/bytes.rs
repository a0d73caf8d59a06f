use graphrox::error::GraphRoxError;
use graphrox::{Graph, GraphRepresentation};
use std::convert::TryFrom;
use symrt::*;
#[path = "/verif/harness/spec.rs"] mod spec;
#[path = "/verif/harness/ops.rs"] mod ops;
use ops::*;
use spec::Spec;

const HEADER: usize = 26;

fn be(b: &[u8], at: usize, n: usize) -> u64 {
    let mut w = [0u8; 8];
    if n == 8 { w.copy_from_slice(&b[at..at + 8]); u64::from_be_bytes(w) } else { w[4..].copy_from_slice(&b[at..at + 4]); u64::from_be_bytes(w) }
}

/// What the documented format says about `b`: the edge list it encodes, if it is valid.
#[inline(never)]
fn expect(b: &[u8]) -> (bool, Spec) {
    let mut s = Spec::new(false);
    if b.len() < HEADER || (b.len() - HEADER) % 16 != 0 { return (false, s); }
    let k = (b.len() - HEADER) / 16;
    s.und = concretize((b[24] == 1) as u64) == 1;
    let dim = be(b, 8, 8);
    let mut ok = (be(b, 0, 4) == 0x7ae71ffd) & (be(b, 4, 4) == 1) & (b[24] <= 1) & (b[25] == 0) & (be(b, 16, 8) == k as u64);
    let mut i = 0;
    while i < k {
        let (c, r) = (be(b, HEADER + 16 * i, 8), be(b, HEADER + 16 * i + 8, 8));
        ok &= (c < dim) & (r < dim);
        s.add(c, r);
        i += 1;
    }
    ok &= s.edges() == k as u64;
    s.n = dim;
    (ok, s)
}
/// Bytes of the documented layout with every field arbitrary.
#[inline(never)]
fn shaped(k: u64, und: u8) -> Vec<u8> {
    let mut v = Vec::with_capacity(HEADER + 16 * k as usize);
    v.extend_from_slice(&any_u32().to_be_bytes());
    v.extend_from_slice(&any_u32().to_be_bytes());
    v.extend_from_slice(&any_u64().to_be_bytes());
    v.extend_from_slice(&any_u64().to_be_bytes());
    v.push(und);
    v.push(any_u8());
    let mut i = 0;
    while i < k { v.extend_from_slice(&any_u64().to_be_bytes()); v.extend_from_slice(&any_u64().to_be_bytes()); i += 1; }
    v
}
#[inline(never)]
fn judge(b: &[u8], (valid, s): (bool, Spec)) {
    match Graph::try_from(b) {
        Ok(g) => {
            log(1);
            cover("accepted");
            check(valid, "accepted bytes are well formed");
            let (x, y) = (any_u64(), any_u64());
            log(g.edge_count());
            log(g.vertex_count());
            check((g.does_edge_exist(x, y) == s.has(x, y)) & (g.edge_count() == s.edges()) & (g.vertex_count() == s.n) & (g.is_undirected() == s.und), "the graph is the one the bytes describe");
        }
        Err(e) => {
            log(0);
            cover("rejected");
            check(!valid, "well-formed bytes are accepted");
            check(matches!(e, GraphRoxError::InvalidFormat(_)), "rejected bytes are reported as an invalid format");
        }
    }
}
/// The bytes of a graph of many edges.
#[inline(never)]
fn many(k: u64, und: u8) -> Vec<u8> {
    let mut v = Vec::new();
    v.extend_from_slice(&0x7ae71ffdu32.to_be_bytes());
    v.extend_from_slice(&1u32.to_be_bytes());
    v.extend_from_slice(&3000u64.to_be_bytes());
    v.extend_from_slice(&k.to_be_bytes());
    v.push(und);
    v.push(0);
    let mut i = 0;
    while i < k {
        let j = if und == 1 { i / 2 } else { i };
        let (a, b) = (j * 37 % 1009, 1100 + j * 91 % 1009);
        let (a, b) = if und == 1 && i % 2 == 1 { (b, a) } else { (a, b) };
        v.extend_from_slice(&a.to_be_bytes());
        v.extend_from_slice(&b.to_be_bytes());
        i += 1;
    }
    v
}
harnesses! {
    /// Many edges, and any one field replaced.
    fn h_parse_many() {
        let (und, k) = (choose(2), param("edges", 20));
        let mut b = many(k, und as u8);
        let at = match choose(7) { 0 => 0, 1 => 8, 2 => 16, 3 => 24, f => HEADER + 16 * [0, k / 2, k - 1][f as usize - 4] as usize };
        if at == 24 { b[at + choose(2) as usize] = any_u8(); }
        else { let w = any_u64().to_be_bytes(); let at = if at > 24 { at + 8 * choose(2) as usize } else { at }; b[at..at + 8].copy_from_slice(&w); }
        judge(&b, expect(&b));
    }
    /// Buffers of every length, every field (and so every byte) arbitrary.
    fn h_parse_any() {
        let len = choose(param("len", 60) + 1) as usize;
        let mut b = shaped((len.saturating_sub(HEADER) as u64 + 15) / 16, any_u8());
        b.truncate(len);
        judge(&b, expect(&b));
    }
    fn h_parse_edges() {
        let und = choose(3) as u8;
        let b = shaped(choose(param("edges", 2) + 1), und);
        judge(&b, expect(&b));
    }
    fn h_roundtrip() {
        let (g, s) = start();
        let b = match g.to_bytes() { Ok(b) => b, Err(_) => { check(false, "a graph can be written"); return } };
        let k = concretize(s.edges());
        check(b.len() as u64 == HEADER as u64 + 16 * k, "the length is the header and sixteen bytes per edge");
        check((be(&b, 0, 4) == 0x7ae71ffd) & (be(&b, 4, 4) == 1) & (be(&b, 8, 8) == s.n) & (be(&b, 16, 8) == k) & (b[24] == s.und as u8) & (b[25] == 0), "the header describes the graph");
        let (mut ok, mut i) = (true, 0usize);
        while i < k as usize {
            let (c, r) = (be(&b, HEADER + 16 * i, 8), be(&b, HEADER + 16 * i + 8, 8));
            ok &= s.has(c, r);
            let mut j = 0;
            while j < i { ok &= !((c == be(&b, HEADER + 16 * j, 8)) & (r == be(&b, HEADER + 16 * j + 8, 8))); j += 1; }
            i += 1;
        }
        check(ok, "the bytes list every edge once");
        match Graph::try_from(b.as_slice()) {
            Ok(h) => {
                let (x, y) = if param("known", 0) == 1 { (1000, 3 * choose(3)) } else { (any_u64(), any_u64()) };
                log(h.edge_count());
                log(h.vertex_count());
                check((h.does_edge_exist(x, y) == s.has(x, y)) & (h.edge_count() == k) & (h.vertex_count() == s.n) & (h.is_undirected() == s.und), "reading the bytes gives back the graph");
            }
            Err(_) => check(false, "the bytes can be read back"),
        }
    }
}
