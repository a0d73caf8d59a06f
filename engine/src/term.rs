//! Hash-consed bit-vector terms (booleans are width 1; floats are carried as
//! their IEEE bits and have dedicated operators), a local simplifier, and a
//! native evaluator.
use std::collections::HashMap;

pub type T = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const, Var,
    Add, Sub, Mul, UDiv, URem, SDiv, SRem,
    And, Or, Xor, Shl, LShr, AShr,
    Concat, Extract, ZExt, SExt, Ite,
    Eq, Ult, Ule, Slt, Sle,
    FAdd, FSub, FMul, FDiv,
    FEq, FLt, FLe, FUno,
    U2F, S2F, F2U, F2S, FExt, FTrunc,
    FRoundInt, // payload: 0 floor 1 ceil 2 trunc 3 nearest-even 4 nearest-away
    FSqrt,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: T,
    pub b: T,
    pub c: T,
    pub k: u128, // constant value / extract low bit / var index
}

pub struct Ctx {
    pub nodes: Vec<Node>,
    facts: Vec<(u16, u128)>,
    sup: Vec<Support>,
    map: HashMap<Node, T, BuildFx>,
}

#[derive(Clone, Default)]
pub struct BuildFx;
impl std::hash::BuildHasher for BuildFx {
    type Hasher = Fx;
    fn build_hasher(&self) -> Fx { Fx(0) }
}
pub struct Fx(u64);
impl std::hash::Hasher for Fx {
    fn finish(&self) -> u64 { self.0 ^ (self.0 >> 29) }
    fn write(&mut self, b: &[u8]) { for x in b { self.write_u64(*x as u64) } }
    fn write_u8(&mut self, x: u8) { self.write_u64(x as u64) }
    fn write_u16(&mut self, x: u16) { self.write_u64(x as u64) }
    fn write_u32(&mut self, x: u32) { self.write_u64(x as u64) }
    fn write_u64(&mut self, x: u64) { self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95) }
    fn write_u128(&mut self, x: u128) { self.write_u64(x as u64); self.write_u64((x >> 64) as u64) }
    fn write_usize(&mut self, x: usize) { self.write_u64(x as u64) }
    fn write_isize(&mut self, x: isize) { self.write_u64(x as u64) }
}

static mut CTX: Option<Ctx> = None;
#[allow(static_mut_refs)]
pub fn ctx() -> &'static mut Ctx {
    unsafe {
        if CTX.is_none() {
            CTX = Some(Ctx { nodes: vec![Node { op: Op::Const, w: 0, a: 0, b: 0, c: 0, k: 0 }], facts: vec![(0, 0)], sup: vec![[0; 4]], map: HashMap::default() });
        }
        CTX.as_mut().unwrap()
    }
}

/// Variables a term mentions; the last bit stands for all variables from 255 on.
pub type Support = [u64; 4];
pub fn support(t: T) -> Support { ctx().sup[t as usize] }
pub fn overlaps(a: &Support, b: &Support) -> bool { a.iter().zip(b).any(|(x, y)| x & y != 0) }

pub fn mask(w: u16) -> u128 { if w >= 128 { u128::MAX } else { (1u128 << w) - 1 } }
pub fn node(t: T) -> Node { ctx().nodes[t as usize] }
pub fn width(t: T) -> u16 { ctx().nodes[t as usize].w }
pub fn is_const(t: T) -> Option<u128> { let n = &ctx().nodes[t as usize]; if n.op == Op::Const { Some(n.k) } else { None } }

fn intern(n: Node) -> T {
    let c = ctx();
    if let Some(&t) = c.map.get(&n) { return t; }
    let t = c.nodes.len() as T;
    let f = facts(&n);
    c.nodes.push(n);
    c.facts.push(f);
    let mut u = [0u64; 4];
    if n.op == Op::Var { let i = (n.k as usize).min(255); u[i / 64] |= 1 << (i % 64); }
    else { for y in [n.a, n.b, n.c] { for (d, x) in u.iter_mut().zip(c.sup[y as usize]) { *d |= x; } } }
    c.sup.push(u);
    c.map.insert(n, t);
    t
}
fn raw(op: Op, w: u16, a: T, b: T, c: T, k: u128) -> T { intern(Node { op, w, a, b, c, k }) }

pub fn cst(w: u16, v: u128) -> T { raw(Op::Const, w, 0, 0, 0, v & mask(w)) }
pub fn var(w: u16, idx: u32) -> T { raw(Op::Var, w, 0, 0, 0, idx as u128) }
pub fn tru() -> T { cst(1, 1) }
pub fn fls() -> T { cst(1, 0) }

pub fn sext_c(v: u128, w: u16) -> i128 {
    if w >= 128 { v as i128 } else { ((v << (128 - w)) as i128) >> (128 - w) }
}

fn round_mode_int(x: f64, k: u128) -> f64 {
    match k { 0 => x.floor(), 1 => x.ceil(), 2 => x.trunc(), 3 => x.round_ties_even(), _ => x.round() }
}
fn f64u(v: u128) -> f64 { f64::from_bits(v as u64) }
fn f32u(v: u128) -> f32 { f32::from_bits(v as u32) }

/// Evaluates an operator over constants. `w` is the result width, `aw` the width of the first operand.
pub fn fold(op: Op, w: u16, aw: u16, a: u128, b: u128, c: u128, k: u128, bw: u16) -> u128 {
    let m = mask(w);
    let bool_ = |x: bool| x as u128;
    (match op {
        Op::Const | Op::Var => unreachable!(),
        Op::Add => a.wrapping_add(b),
        Op::Sub => a.wrapping_sub(b),
        Op::Mul => a.wrapping_mul(b),
        Op::UDiv => if b == 0 { m } else { a / b },
        Op::URem => if b == 0 { a } else { a % b },
        Op::SDiv => { let (x, y) = (sext_c(a, w), sext_c(b, w)); if y == 0 { if x < 0 { 1 } else { m } } else { x.wrapping_div(y) as u128 } }
        Op::SRem => { let (x, y) = (sext_c(a, w), sext_c(b, w)); if y == 0 { a } else { x.wrapping_rem(y) as u128 } }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => if b >= w as u128 { 0 } else { a << b },
        Op::LShr => if b >= w as u128 { 0 } else { a >> b },
        Op::AShr => { let s = sext_c(a, w); if b >= w as u128 { (s >> 127) as u128 } else { (s >> b) as u128 } }
        Op::Concat => (a << bw) | b,
        Op::Extract => a >> k,
        Op::ZExt => a,
        Op::SExt => sext_c(a, aw) as u128,
        Op::Ite => if a != 0 { b } else { c },
        Op::Eq => bool_(a == b),
        Op::Ult => bool_(a < b),
        Op::Ule => bool_(a <= b),
        Op::Slt => bool_(sext_c(a, aw) < sext_c(b, aw)),
        Op::Sle => bool_(sext_c(a, aw) <= sext_c(b, aw)),
        Op::FAdd => if w == 64 { (f64u(a) + f64u(b)).to_bits() as u128 } else { (f32u(a) + f32u(b)).to_bits() as u128 },
        Op::FSub => if w == 64 { (f64u(a) - f64u(b)).to_bits() as u128 } else { (f32u(a) - f32u(b)).to_bits() as u128 },
        Op::FMul => if w == 64 { (f64u(a) * f64u(b)).to_bits() as u128 } else { (f32u(a) * f32u(b)).to_bits() as u128 },
        Op::FDiv => if w == 64 { (f64u(a) / f64u(b)).to_bits() as u128 } else { (f32u(a) / f32u(b)).to_bits() as u128 },
        Op::FEq => bool_(if aw == 64 { f64u(a) == f64u(b) } else { f32u(a) == f32u(b) }),
        Op::FLt => bool_(if aw == 64 { f64u(a) < f64u(b) } else { f32u(a) < f32u(b) }),
        Op::FLe => bool_(if aw == 64 { f64u(a) <= f64u(b) } else { f32u(a) <= f32u(b) }),
        Op::FUno => bool_(if aw == 64 { f64u(a).is_nan() || f64u(b).is_nan() } else { f32u(a).is_nan() || f32u(b).is_nan() }),
        Op::U2F => if w == 64 { (a as f64).to_bits() as u128 } else { (a as f32).to_bits() as u128 },
        Op::S2F => { let s = sext_c(a, aw); if w == 64 { (s as f64).to_bits() as u128 } else { (s as f32).to_bits() as u128 } }
        Op::F2U => { let x = if aw == 64 { f64u(a) } else { f32u(a) as f64 }; x as u128 }
        Op::F2S => { let x = if aw == 64 { f64u(a) } else { f32u(a) as f64 }; x as i128 as u128 }
        Op::FExt => (f32u(a) as f64).to_bits() as u128,
        Op::FTrunc => (f64u(a) as f32).to_bits() as u128,
        Op::FRoundInt => if w == 64 { round_mode_int(f64u(a), k).to_bits() as u128 } else { (round_mode_int(f32u(a) as f64, k) as f32).to_bits() as u128 },
        Op::FSqrt => if w == 64 { f64u(a).sqrt().to_bits() as u128 } else { f32u(a).sqrt().to_bits() as u128 },
    }) & m
}

fn commutes(op: Op) -> bool { matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq | Op::FEq) }

pub fn not1(a: T) -> T { mk2(Op::Xor, 1, a, cst(1, 1)) }
/// If `t` is a negated boolean, its body.
pub fn negated(t: T) -> Option<T> {
    let n = node(t);
    if n.w == 1 && n.op == Op::Xor && is_const(n.b) == Some(1) { Some(n.a) } else { None }
}

pub fn extract(t: T, lo: u16, w: u16) -> T {
    let n = node(t);
    debug_assert!(lo + w <= n.w);
    if lo == 0 && w == n.w { return t; }
    match n.op {
        Op::Const => return cst(w, n.k >> lo),
        Op::Extract => return extract(n.a, lo + n.k as u16, w),
        Op::Concat => {
            let bw = width(n.b);
            if lo >= bw { return extract(n.a, lo - bw, w); }
            if lo + w <= bw { return extract(n.b, lo, w); }
            let low = extract(n.b, lo, bw - lo);
            let high = extract(n.a, 0, w - (bw - lo));
            return concat(high, low);
        }
        Op::ZExt => {
            let iw = width(n.a);
            if lo + w <= iw { return extract(n.a, lo, w); }
            if lo >= iw { return cst(w, 0); }
            return zext(extract(n.a, lo, iw - lo), w);
        }
        Op::SExt => {
            let iw = width(n.a);
            if lo + w <= iw { return extract(n.a, lo, w); }
        }
        Op::Ite => {
            if is_const(n.b).is_some() || is_const(n.c).is_some() {
                let x = extract(n.b, lo, w);
                let y = extract(n.c, lo, w);
                return ite(n.a, x, y);
            }
        }
        Op::And | Op::Or | Op::Xor => {
            let x = extract(n.a, lo, w);
            let y = extract(n.b, lo, w);
            return mk2(n.op, w, x, y);
        }
        Op::Add | Op::Sub | Op::Mul => {
            if lo == 0 && w < n.w {
                let x = extract(n.a, 0, w);
                let y = extract(n.b, 0, w);
                return mk2(n.op, w, x, y);
            }
        }
        _ => {}
    }
    raw(Op::Extract, w, t, 0, 0, lo as u128)
}

pub fn concat(hi: T, lo: T) -> T {
    let (h, l) = (node(hi), node(lo));
    let w = h.w + l.w;
    if h.op == Op::Const && l.op == Op::Const { return cst(w, (h.k << l.w) | l.k); }
    if h.op == Op::Const && h.k == 0 { return zext(lo, w); }
    if h.op == Op::Extract && l.op == Op::Extract && h.a == l.a && h.k == l.k + l.w as u128 {
        return extract(h.a, l.k as u16, w);
    }
    // concat(extract(x..), concat(extract(x..), r)) : merge adjacent parts
    if l.op == Op::Concat {
        let lh = node(l.a);
        if h.op == Op::Extract && lh.op == Op::Extract && h.a == lh.a && h.k == lh.k + lh.w as u128 {
            let m = extract(h.a, lh.k as u16, h.w + lh.w);
            return concat(m, l.b);
        }
        if h.op == Op::Const && lh.op == Op::Const {
            let m = cst(h.w + lh.w, (h.k << lh.w) | lh.k);
            return concat(m, l.b);
        }
    }
    // right-associate
    if h.op == Op::Concat { let r = concat(h.b, lo); return concat(h.a, r); }
    if h.op == Op::ZExt {
        let iw = width(h.a);
        let r = concat(h.a, lo);
        return zext(r, h.w - iw + iw + l.w);
    }
    if h.op == Op::Ite && l.op == Op::Ite && h.a == l.a {
        let x = concat(h.b, l.b);
        let y = concat(h.c, l.c);
        return ite(h.a, x, y);
    }
    raw(Op::Concat, w, hi, lo, 0, 0)
}

pub fn zext(t: T, w: u16) -> T {
    let n = node(t);
    if n.w == w { return t; }
    match n.op {
        Op::Const => cst(w, n.k),
        Op::ZExt => zext(n.a, w),
        Op::Ite if is_const(n.b).is_some() && is_const(n.c).is_some() => {
            let x = zext(n.b, w);
            let y = zext(n.c, w);
            ite(n.a, x, y)
        }
        _ => raw(Op::ZExt, w, t, 0, 0, 0),
    }
}
pub fn sext(t: T, w: u16) -> T {
    let n = node(t);
    if n.w == w { return t; }
    if n.w == 1 && n.op != Op::Const { return ite(t, cst(w, mask(w)), cst(w, 0)); }
    match n.op {
        Op::Const => cst(w, sext_c(n.k, n.w) as u128),
        Op::ZExt => zext(n.a, w),
        Op::SExt => sext(n.a, w),
        Op::Ite if is_const(n.b).is_some() && is_const(n.c).is_some() => {
            let x = sext(n.b, w);
            let y = sext(n.c, w);
            ite(n.a, x, y)
        }
        _ => raw(Op::SExt, w, t, 0, 0, 0),
    }
}

pub fn ite(c: T, a: T, b: T) -> T {
    if let Some(k) = is_const(c) { return if k != 0 { a } else { b }; }
    if a == b { return a; }
    let w = width(a);
    if let Some(nc) = negated(c) { return ite(nc, b, a); }
    if w == 1 {
        match (is_const(a), is_const(b)) {
            (Some(1), Some(0)) => return c,
            (Some(0), Some(1)) => return not1(c),
            (Some(1), None) => return mk2(Op::Or, 1, c, b),
            (Some(0), None) => { let n = not1(c); return mk2(Op::And, 1, n, b) }
            (None, Some(1)) => { let n = not1(c); return mk2(Op::Or, 1, n, a) }
            (None, Some(0)) => return mk2(Op::And, 1, c, a),
            _ => {}
        }
    }
    let na = node(a);
    if na.op == Op::Ite && na.a == c { return ite(c, na.b, b); }
    let nb = node(b);
    if nb.op == Op::Ite && nb.a == c { return ite(c, a, nb.c); }
    // ite(c, x, ite(d, x, y)) = ite(c|d, x, y)
    if nb.op == Op::Ite && nb.b == a { let o = mk2(Op::Or, 1, c, nb.a); return ite(o, a, nb.c); }
    if na.op == Op::Ite && na.c == b { let o = mk2(Op::And, 1, c, na.a); return ite(o, na.b, b); }
    raw(Op::Ite, w, c, a, b, 0)
}

fn low_ones(k: u128) -> Option<u16> {
    if k != 0 && (k & (k.wrapping_add(1))) == 0 { Some((128 - k.leading_zeros()) as u16) } else { None }
}

/// Number of trailing zero bits that are certain.
pub fn known_tz(t: T) -> u16 { ctx().facts[t as usize].0 }
/// Upper bound on the unsigned value of `t` (structural, found when the term is made).
pub fn umax(t: T) -> u128 { ctx().facts[t as usize].1 }
fn facts(n: &Node) -> (u16, u128) {
    let m = mask(n.w);
    let (tz, ub) = (known_tz, umax);
    let z = match n.op {
        Op::Const => if n.k == 0 { n.w } else { n.k.trailing_zeros() as u16 },
        Op::Concat => { let l = tz(n.b); let bw = width(n.b); if l >= bw { bw + tz(n.a) } else { l } }
        Op::ZExt | Op::SExt => { let l = tz(n.a); if l >= width(n.a) { n.w } else { l } }
        Op::Add | Op::Sub | Op::Or | Op::Xor => tz(n.a).min(tz(n.b)),
        Op::And => tz(n.a).max(tz(n.b)),
        Op::Mul => (tz(n.a) + tz(n.b)).min(n.w),
        Op::Ite => tz(n.b).min(tz(n.c)),
        _ => 0,
    };
    let k = if n.b != 0 { is_const(n.b) } else { None };
    let u = match n.op {
        Op::Const => n.k,
        Op::ZExt => ub(n.a),
        Op::And => ub(n.a).min(ub(n.b)),
        Op::Or | Op::Xor => { let x = ub(n.a) | ub(n.b); let bits = 128 - x.leading_zeros(); (if bits >= 128 { u128::MAX } else { (1 << bits) - 1 }).min(m) }
        Op::Ite => ub(n.b).max(ub(n.c)),
        Op::Concat => (ub(n.a) << width(n.b)) | ub(n.b),
        Op::Add => match ub(n.a).checked_add(ub(n.b)) { Some(s) if s <= m => s, _ => m },
        Op::Mul => match ub(n.a).checked_mul(ub(n.b)) { Some(s) if s <= m => s, _ => m },
        Op::UDiv => match k { Some(k) if k > 0 => ub(n.a) / k, _ => m },
        Op::URem => match k { Some(k) if k > 0 => (k - 1).min(ub(n.a)), _ => m },
        Op::LShr => match k { Some(k) if k < 128 => ub(n.a) >> k, _ => m },
        Op::Extract if n.k == 0 => ub(n.a).min(m),
        _ => m,
    };
    (z, u)
}

/// A concatenation that merely reorders the pieces of one term: that term, and (width, position) of the pieces.
fn pieces(t: T) -> Option<(T, Vec<(u16, u16)>)> {
    let (mut base, mut used, mut v) = (0, 0u128, vec![]);
    let mut cur = t;
    loop {
        let n = node(cur);
        let (piece, rest) = if n.op == Op::Concat { (n.a, n.b) } else { (cur, 0) };
        let p = node(piece);
        if p.op != Op::Extract || (base != 0 && p.a != base) { return None; }
        base = p.a;
        let m = mask(p.w) << p.k;
        if used & m != 0 { return None; }
        used |= m;
        v.push((p.w, p.k as u16));
        if rest == 0 { break; }
        cur = rest;
    }
    if used == mask(width(base)) { Some((base, v)) } else { None }
}
fn unpermute(t: T, k: u128) -> Option<(T, u128)> {
    let (base, v) = pieces(t)?;
    let (mut at, mut out) = (width(t), 0);
    for (w, lo) in v { at -= w; out |= ((k >> at) & mask(w)) << lo; }
    Some((base, out))
}

/// A floating-point predicate over one byte-sized variable, as a condition on the variable.
fn tabulate(t: T) -> Option<T> {
    let mut var = 0;
    let mut seen = std::collections::HashSet::new();
    let mut st = vec![t];
    while let Some(x) = st.pop() {
        let n = node(x);
        if n.op == Op::Const || !seen.insert(x) { continue; }
        if seen.len() > 400 { return None; }
        if n.op == Op::Var { if n.w > 8 || (var != 0 && var != x) { return None; } var = x; continue; }
        for y in [n.a, n.b, n.c] { if y != 0 { st.push(y); } }
    }
    if var == 0 { return None; }
    let (idx, vw) = (node(var).k as u32, width(var));
    let vals: Vec<bool> = (0..=mask(vw)).map(|v| { let mut m = Model::default(); m.vals.insert(idx, v); eval(t, &m) != 0 }).collect();
    let mut r = fls();
    let mut i = 0;
    while i < vals.len() {
        if !vals[i] { i += 1; continue; }
        let lo = i;
        while i < vals.len() && vals[i] { i += 1; }
        let p = mk2(Op::Ule, 1, cst(vw, lo as u128), var);
        let q = mk2(Op::Ule, 1, var, cst(vw, i as u128 - 1));
        let c = mk2(Op::And, 1, p, q);
        r = mk2(Op::Or, 1, r, c);
    }
    Some(r)
}

/// Operands of a nest of `op` (and or or) with negated nests of the dual seen through; false when there are too many.
pub fn juncts(op: Op, t: T, out: &mut Vec<T>) -> bool {
    let n = node(t);
    if n.w == 1 && n.op == op { return juncts(op, n.a, out) && juncts(op, n.b, out); }
    if let Some(b) = negated(t) {
        let n = node(b);
        if n.w == 1 && n.op == if op == Op::Or { Op::And } else { Op::Or } { return juncts(op, not1(n.a), out) && juncts(op, not1(n.b), out); }
    }
    if !out.contains(&t) { out.push(t); }
    out.len() <= 16
}
/// Absorption and resolution among the operands of an and/or: what a merge of several branches needs to come back to where it forked.
fn resolve(op: Op, a: T, b: T) -> Option<T> {
    let dual = if op == Op::Or { Op::And } else { Op::Or };
    let mut d = vec![];
    if !juncts(op, a, &mut d) || !juncts(op, b, &mut d) { return None; }
    let end = cst(1, (op == Op::Or) as u128);
    if d.iter().any(|x| d.contains(&not1(*x))) { return Some(end); }
    let mut changed = false;
    let mut i = 0;
    while i < d.len() {
        let mut c = vec![];
        let neg_nest = negated(d[i]).map_or(false, |x| node(x).op == op);
        if (node(d[i]).op == dual || neg_nest) && juncts(dual, d[i], &mut c) && c.len() > 1 {
            if c.iter().any(|x| d.contains(x)) { d.remove(i); changed = true; continue; }
            let n = c.len();
            c.retain(|x| !d.contains(&not1(*x)));
            if c.len() < n {
                changed = true;
                let Some(mut r) = c.pop() else { return Some(end) };
                for x in c { r = mk2(dual, 1, r, x); }
                d[i] = r;
            }
        }
        i += 1;
    }
    if !changed { return None; }
    let mut r = d.pop()?;
    for x in d { r = mk2(op, 1, r, x); }
    Some(r)
}
pub fn mk2(op: Op, w: u16, a0: T, b0: T) -> T {
    let (mut a, mut b) = (a0, b0);
    let (ca, cb) = (is_const(a), is_const(b));
    let aw = width(a);
    if let (Some(x), Some(y)) = (ca, cb) {
        return cst(w, fold(op, w, aw, x, y, 0, 0, width(b)));
    }
    if commutes(op) && (ca.is_some() || (cb.is_none() && a > b)) { std::mem::swap(&mut a, &mut b); }
    let (ca, cb) = (is_const(a), is_const(b));
    let m = mask(w);
    if matches!(op, Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FEq | Op::FLt | Op::FLe | Op::FUno) {
        // arithmetic on an ite of constants keeps being an ite of constants
        for (x, y, left) in [(a, b, true), (b, a, false)] {
            let nx = node(x);
            if is_const(y).is_some() && nx.op == Op::Ite && (is_const(nx.b).is_some() || is_const(nx.c).is_some()) {
                let (p, q) = if left { (mk2(op, w, nx.b, y), mk2(op, w, nx.c, y)) } else { (mk2(op, w, y, nx.b), mk2(op, w, y, nx.c)) };
                return ite(nx.a, p, q);
            }
        }
        if op == Op::FDiv && w == 64 {
            // division by a power of two is multiplication by its (exact) reciprocal
            if let Some(k) = cb {
                let e = (k >> 52) as u64 & 0x7ff;
                if k as u64 & ((1 << 52) - 1) == 0 && e > 1 && e < 2045 { return mk2(Op::FMul, w, a, cst(64, f64u(k).recip().to_bits() as u128)); }
            }
        }
        if w == 1 { if let Some(t) = tabulate(raw(op, w, a, b, 0, 0)) { return t; } }
        return raw(op, w, a, b, 0, 0);
    }
    match op {
        Op::Add => {
            if cb == Some(0) { return a; }
            if w == 1 { return mk2(Op::Xor, 1, a, b); }
            let na = node(a);
            if let Some(k) = cb {
                if na.op == Op::Add { if let Some(k2) = is_const(na.b) { return mk2(Op::Add, w, na.a, cst(w, k.wrapping_add(k2))); } }
                if na.op == Op::Ite && is_const(na.b).is_some() && is_const(na.c).is_some() {
                    let x = mk2(Op::Add, w, na.b, b);
                    let y = mk2(Op::Add, w, na.c, b);
                    return ite(na.a, x, y);
                }
            }
            // into the zero bits below: a concatenation
            if let Some(k) = cb {
                let bits = (128 - k.leading_zeros()) as u16;
                if known_tz(a) >= bits && bits < w { let h = extract(a, bits, w - bits); return concat(h, cst(bits, k)); }
            }
            if let (Op::Concat, Some(k)) = (na.op, cb) {
                let lw = width(na.b);
                if let Some(k2) = is_const(na.b) { if let Some(z) = k.checked_add(k2) { if z <= mask(lw) { return concat(na.a, cst(lw, z)); } } }
            }
            if let Some(t) = narrow_add(w, a, b) { return t; }
            // (x - y) + y
            if na.op == Op::Sub && na.b == b { return na.a; }
            let nb = node(b);
            if nb.op == Op::Sub && nb.b == a { return nb.a; }
            // move constants outwards
            if na.op == Op::Add { if let Some(_) = is_const(na.b) { if cb.is_none() {
                let s = mk2(Op::Add, w, na.a, b);
                return mk2(Op::Add, w, s, na.b);
            } } }
            if nb.op == Op::Add { if let Some(_) = is_const(nb.b) {
                let s = mk2(Op::Add, w, a, nb.a);
                return mk2(Op::Add, w, s, nb.b);
            } }
        }
        Op::Sub => {
            if cb == Some(0) { return a; }
            if a == b { return cst(w, 0); }
            if let Some(k) = cb { return mk2(Op::Add, w, a, cst(w, k.wrapping_neg())); }
            let na = node(a);
            let nb = node(b);
            if na.op == Op::Add { if na.b == b { return na.a; } if na.a == b { return na.b; } }
            if nb.op == Op::Add && is_const(nb.b).is_some() {
                let s = mk2(Op::Sub, w, a, nb.a);
                let kk = cst(w, is_const(nb.b).unwrap().wrapping_neg());
                return mk2(Op::Add, w, s, kk);
            }
            if na.op == Op::Add && is_const(na.b).is_some() {
                let s = mk2(Op::Sub, w, na.a, b);
                return mk2(Op::Add, w, s, na.b);
            }
        }
        Op::Mul => {
            if let Some(k) = cb {
                if k == 0 { return b; }
                if k == 1 { return a; }
                if k.is_power_of_two() { return mk2(Op::Shl, w, a, cst(w, k.trailing_zeros() as u128)); }
                let na = node(a);
                if na.op == Op::Ite && is_const(na.b).is_some() && is_const(na.c).is_some() {
                    let x = mk2(Op::Mul, w, na.b, b);
                    let y = mk2(Op::Mul, w, na.c, b);
                    return ite(na.a, x, y);
                }
            }
        }
        Op::UDiv => if let Some(k) = cb {
            if k == 1 { return a; }
            if k.is_power_of_two() { return mk2(Op::LShr, w, a, cst(w, k.trailing_zeros() as u128)); }
            if umax(a) < k && k != 0 { return cst(w, 0); }
            if let Some(t) = narrow(Op::UDiv, w, a, k) { return t; }
        }
        Op::URem => if let Some(k) = cb {
            if k == 1 { return cst(w, 0); }
            if k.is_power_of_two() { return mk2(Op::And, w, a, cst(w, k - 1)); }
            if k != 0 && umax(a) < k { return a; }
            if let Some(t) = narrow(Op::URem, w, a, k) { return t; }
        }
        Op::And => {
            if a == b { return a; }
            if let Some(k) = cb {
                if k == 0 { return b; }
                if k == m { return a; }
                if let Some(n) = low_ones(k) { let e = extract(a, 0, n); return zext(e, w); }
                // contiguous run of ones: shift out
                let tz = k.trailing_zeros() as u16;
                if let Some(n) = low_ones(k >> tz) {
                    let e = extract(a, tz, n);
                    let c = concat(e, cst(tz, 0));
                    return zext(c, w);
                }
                let na = node(a);
                if na.op == Op::And { if let Some(k2) = is_const(na.b) { return mk2(Op::And, w, na.a, cst(w, k & k2)); } }
            }
            if w == 1 {
                if negated(a) == Some(b) || negated(b) == Some(a) { return cst(1, 0); }
                if let Some(r) = resolve(Op::And, a, b) { return r; }
                if let (Some(x), Some(y)) = (negated(a), negated(b)) { let o = mk2(Op::Or, 1, x, y); return not1(o); }
                for (x, y) in [(a, b), (b, a)] {
                    let ny = node(y);
                    if ny.op == Op::And { if ny.a == x || ny.b == x { return y; }
                        if let Some(nx) = negated(x) { if ny.a == nx || ny.b == nx { return cst(1, 0); } }
                        if negated(ny.a) == Some(x) || negated(ny.b) == Some(x) { return cst(1, 0); } }
                    if ny.op == Op::Or {
                        if ny.a == x || ny.b == x { return x; }
                        // x & (!x | z) = x & z
                        let neg_is = |t: T| negated(t) == Some(x) || negated(x) == Some(t);
                        if neg_is(ny.a) { return mk2(Op::And, 1, x, ny.b); }
                        if neg_is(ny.b) { return mk2(Op::And, 1, x, ny.a); }
                    }
                }
            }
        }
        Op::Or => {
            if a == b { return a; }
            if w == 1 { if let Some(r) = resolve(Op::Or, a, b) { return r; } }
            if let Some(k) = cb {
                if k == 0 { return a; }
                if k == m { return b; }
            }
            if w == 1 {
                if negated(a) == Some(b) || negated(b) == Some(a) { return cst(1, 1); }
                if let (Some(x), Some(y)) = (negated(a), negated(b)) { let o = mk2(Op::And, 1, x, y); return not1(o); }
                for (x, y) in [(a, b), (b, a)] {
                    let ny = node(y);
                    if ny.op == Op::Or { if ny.a == x || ny.b == x { return y; }
                        if let Some(nx) = negated(x) { if ny.a == nx || ny.b == nx { return cst(1, 1); } }
                        if negated(ny.a) == Some(x) || negated(ny.b) == Some(x) { return cst(1, 1); } }
                    if ny.op == Op::And {
                        if ny.a == x || ny.b == x { return x; }
                        let neg_is = |t: T| negated(t) == Some(x) || negated(x) == Some(t);
                        if neg_is(ny.a) { return mk2(Op::Or, 1, x, ny.b); }
                        if neg_is(ny.b) { return mk2(Op::Or, 1, x, ny.a); }
                    }
                    // x | !(p | q) with x == p or q
                    if let Some(body) = negated(y) {
                        let nb = node(body);
                        if nb.op == Op::Or {
                            if nb.a == x { let n = not1(nb.b); return mk2(Op::Or, 1, x, n); }
                            if nb.b == x { let n = not1(nb.a); return mk2(Op::Or, 1, x, n); }
                        }
                        if nb.op == Op::And {
                            if nb.a == x || nb.b == x { return cst(1, 1); }
                        }
                    }
                }
            }
            // disjoint or: (zext x) | (y ++ 0) -> concat
            if w > 1 {
                for (x, y) in [(a, b), (b, a)] {
                    let tz = known_tz(y);
                    if tz > 0 && tz < w && umax(x) <= mask(tz) {
                        let hi = extract(y, tz, w - tz);
                        let lo = extract(x, 0, tz);
                        return concat(hi, lo);
                    }
                }
            }
        }
        Op::Xor => {
            if a == b { return cst(w, 0); }
            if cb == Some(0) { return a; }
            if let Some(k) = cb {
                let na = node(a);
                if na.op == Op::Xor { if let Some(k2) = is_const(na.b) { return mk2(Op::Xor, w, na.a, cst(w, k ^ k2)); } }
                if w == 1 && k == 1 {
                    // push negation through comparisons
                    match na.op {
                        Op::Ult => return mk2(Op::Ule, 1, na.b, na.a),
                        Op::Ule => return mk2(Op::Ult, 1, na.b, na.a),
                        Op::Slt => return mk2(Op::Sle, 1, na.b, na.a),
                        Op::Sle => return mk2(Op::Slt, 1, na.b, na.a),
                        _ => {}
                    }
                }
            }
        }
        Op::Shl | Op::LShr | Op::AShr => {
            if cb == Some(0) { return a; }
            if ca == Some(0) { return a; }
            if let Some(k) = cb {
                if k >= w as u128 {
                    if op == Op::AShr { let s = extract(a, w - 1, 1); return sext(s, w); }
                    return cst(w, 0);
                }
                let k = k as u16;
                match op {
                    Op::Shl => { let e = extract(a, 0, w - k); return concat(e, cst(k, 0)); }
                    Op::LShr => { let e = extract(a, k, w - k); return zext(e, w); }
                    _ => { let e = extract(a, k, w - k); return sext(e, w); }
                }
            }
        }
        Op::Eq => {
            if a == b { return cst(1, 1); }
            let na = node(a);
            if aw == 1 {
                if let Some(k) = cb { return if k == 1 { a } else { not1(a) }; }
            }
            if let Some(k) = cb {
                match na.op {
                    Op::ZExt => {
                        let iw = width(na.a);
                        if k > mask(iw) { return cst(1, 0); }
                        return mk2(Op::Eq, 1, na.a, cst(iw, k));
                    }
                    Op::SExt => {
                        let iw = width(na.a);
                        if (sext_c(k & mask(iw), iw) as u128) & mask(aw) != k { return cst(1, 0); }
                        return mk2(Op::Eq, 1, na.a, cst(iw, k));
                    }
                    Op::Concat => {
                        if let Some((base, k2)) = unpermute(a, k) { return mk2(Op::Eq, 1, base, cst(width(base), k2)); }
                        let bw = width(na.b);
                        let x = mk2(Op::Eq, 1, na.a, cst(aw - bw, k >> bw));
                        if is_const(x) == Some(0) { return x; }
                        let y = mk2(Op::Eq, 1, na.b, cst(bw, k));
                        return mk2(Op::And, 1, x, y);
                    }
                    Op::Add => if let Some(k2) = is_const(na.b) { return mk2(Op::Eq, 1, na.a, cst(aw, k.wrapping_sub(k2))); },
                    Op::Xor => if let Some(k2) = is_const(na.b) { return mk2(Op::Eq, 1, na.a, cst(aw, k ^ k2)); },
                    Op::Sub => if k == 0 { return mk2(Op::Eq, 1, na.a, na.b); },
                    Op::Ite => {
                        if is_const(na.b).is_some() || is_const(na.c).is_some() {
                            let x = mk2(Op::Eq, 1, na.b, b);
                            let y = mk2(Op::Eq, 1, na.c, b);
                            return ite(na.a, x, y);
                        }
                    }
                    _ => { if k > umax(a) { return cst(1, 0); } }
                }
            } else {
                if let Some((x, y)) = narrow_pair(aw, a, b) { return mk2(Op::Eq, 1, x, y); }
                let nb = node(b);
                if na.op == Op::Concat && nb.op == Op::Concat {
                    if let (Some((x, p)), Some((y, q))) = (pieces(a), pieces(b)) { if p == q && width(x) == width(y) { return mk2(Op::Eq, 1, x, y); } }
                }
                for (x, nx, y) in [(a, na, b), (b, nb, a)] {
                    let _ = x;
                    if nx.op != Op::Concat || node(y).op == Op::Concat { continue; }
                    let (hi, lo) = (node(nx.a), node(nx.b));
                    let bw = lo.w;
                    if (hi.op == Op::Extract && hi.a == y && hi.k == bw as u128) || (lo.op == Op::Extract && lo.a == y && lo.k == 0) {
                        let p = mk2(Op::Eq, 1, nx.a, extract(y, bw, aw - bw));
                        let q = mk2(Op::Eq, 1, nx.b, extract(y, 0, bw));
                        return mk2(Op::And, 1, p, q);
                    }
                }
                if na.op == Op::ZExt && nb.op == Op::ZExt && width(na.a) == width(nb.a) { return mk2(Op::Eq, 1, na.a, nb.a); }
                if na.op == Op::Add && nb.op == Op::Add && is_const(na.b).is_some() && na.b == nb.b { return mk2(Op::Eq, 1, na.a, nb.a); }
                if na.op == Op::Concat && nb.op == Op::Concat && width(na.a) == width(nb.a) {
                    let x = mk2(Op::Eq, 1, na.a, nb.a);
                    let y = mk2(Op::Eq, 1, na.b, nb.b);
                    return mk2(Op::And, 1, x, y);
                }
            }
        }
        Op::Ult => {
            if a == b { return cst(1, 0); }
            if cb == Some(0) { return cst(1, 0); }
            if ca == Some(mask(aw)) { return cst(1, 0); }
            if ca == Some(0) { let e = mk2(Op::Eq, 1, b, a); return not1(e); }
            if cb == Some(1) { return mk2(Op::Eq, 1, a, cst(aw, 0)); }
            if let Some(k) = cb { if umax(a) < k { return cst(1, 1); } }
            let na = node(a);
            if na.op == Op::Add && (na.a == b || na.b == b) && umax(na.a).checked_add(umax(na.b)).map_or(false, |u| u <= mask(aw)) { return cst(1, 0); }
            if let Some(k) = ca { if umax(b) <= k { return cst(1, 0); } }
            if let Some(r) = cmp_narrow(op, a, b) { return r; }
            if let Some((x, y)) = narrow_pair(aw, a, b) { return mk2(op, 1, x, y); }
        }
        Op::Ule => {
            if a == b { return cst(1, 1); }
            if ca == Some(0) { return cst(1, 1); }
            if cb == Some(mask(aw)) { return cst(1, 1); }
            if cb == Some(0) { return mk2(Op::Eq, 1, a, b); }
            if let Some(k) = cb { if umax(a) <= k { return cst(1, 1); } }
            if let Some(k) = ca { if umax(b) < k { return cst(1, 0); } if k == mask(aw) { return mk2(Op::Eq, 1, a, b); } }
            if let Some(r) = cmp_narrow(op, a, b) { return r; }
            if let Some((x, y)) = narrow_pair(aw, a, b) { return mk2(op, 1, x, y); }
            // with a constant, only the strict comparison is used (both bounds were handled above)
            if let Some(k) = ca { return mk2(Op::Ult, 1, cst(aw, k - 1), b); }
            if let Some(k) = cb { return mk2(Op::Ult, 1, a, cst(aw, k + 1)); }
        }
        Op::Slt => {
            if a == b { return cst(1, 0); }
            // both certainly non-negative
            if umax(a) <= mask(aw - 1) && umax(b) <= mask(aw - 1) && aw > 1 { return mk2(Op::Ult, 1, a, b); }
            if let (Op::SExt, Some(k)) = (node(a).op, cb) {
                let iw = width(node(a).a);
                if (sext_c(k & mask(iw), iw) as u128) & mask(aw) == k { return mk2(Op::Slt, 1, node(a).a, cst(iw, k)); }
            }
        }
        Op::Sle => {
            if a == b { return cst(1, 1); }
            if umax(a) <= mask(aw - 1) && umax(b) <= mask(aw - 1) && aw > 1 { return mk2(Op::Ule, 1, a, b); }
        }
        Op::Concat => return concat(a, b),
        _ => {}
    }
    // comparisons of an ite-of-constants with a constant
    if matches!(op, Op::Ult | Op::Ule | Op::Slt | Op::Sle) {
        for (x, y, left) in [(a, b, true), (b, a, false)] {
            let nx = node(x);
            if is_const(y).is_some() && nx.op == Op::Ite && is_const(nx.b).is_some() && is_const(nx.c).is_some() {
                let (p, q) = if left { (mk2(op, 1, nx.b, y), mk2(op, 1, nx.c, y)) } else { (mk2(op, 1, y, nx.b), mk2(op, 1, y, nx.c)) };
                return ite(nx.a, p, q);
            }
        }
    }
    raw(op, w, a, b, 0, 0)
}

/// Division of a small value by a constant, done at the small width.
fn narrow(op: Op, w: u16, a: T, k: u128) -> Option<T> {
    let u = umax(a);
    let n = (128 - u.leading_zeros()) as u16;
    if k == 0 || n > 32 || n + n > w || k > u { return None; }
    let x = extract(a, 0, n);
    let r = mk2(op, n, x, cst(n, k));
    Some(zext(r, w))
}

/// A sum of small values, done at the small width.
fn narrow_add(w: u16, a: T, b: T) -> Option<T> {
    let u = umax(a).checked_add(umax(b))?;
    let n = (128 - u.leading_zeros()) as u16;
    if n > 20 || n + n > w { return None; }
    let (x, y) = (extract(a, 0, n), extract(b, 0, n));
    let r = mk2(Op::Add, n, x, y);
    Some(zext(r, w))
}

/// Two values that fit a small width, at that width.
fn narrow_pair(w: u16, a: T, b: T) -> Option<(T, T)> {
    let n = (128 - umax(a).max(umax(b)).leading_zeros()) as u16;
    if n == 0 || n > 20 || n + n > w { return None; }
    Some((extract(a, 0, n), extract(b, 0, n)))
}

fn cmp_narrow(op: Op, a: T, b: T) -> Option<T> {
    let (na, nb) = (node(a), node(b));
    // against a concatenation with constant low bits: first the high parts, then the low ones
    if is_const(a).is_none() && is_const(b).is_none() {
        let low = |n: &Node| n.op == Op::Concat && is_const(n.b).is_some();
        let flat = |n: &Node| matches!(n.op, Op::Var | Op::Concat | Op::Extract | Op::ZExt);
        if (low(&na) && flat(&nb)) || (low(&nb) && flat(&na)) {
            let w = width(a);
            let l = width(if low(&na) { na.b } else { nb.b });
            let (ah, bh, al, bl) = (extract(a, l, w - l), extract(b, l, w - l), extract(a, 0, l), extract(b, 0, l));
            let (lt, eq, lo) = (mk2(Op::Ult, 1, ah, bh), mk2(Op::Eq, 1, ah, bh), mk2(op, 1, al, bl));
            let x = mk2(Op::And, 1, eq, lo);
            return Some(mk2(Op::Or, 1, lt, x));
        }
    }
    if na.op == Op::ZExt && nb.op == Op::ZExt && width(na.a) == width(nb.a) { return Some(mk2(op, 1, na.a, nb.a)); }
    if na.op == Op::ZExt && nb.op == Op::Const {
        let iw = width(na.a);
        if nb.k <= mask(iw) { return Some(mk2(op, 1, na.a, cst(iw, nb.k))); }
        return Some(cst(1, 1));
    }
    if nb.op == Op::ZExt && na.op == Op::Const {
        let iw = width(nb.a);
        if na.k <= mask(iw) { return Some(mk2(op, 1, cst(iw, na.k), nb.a)); }
        return Some(cst(1, 0));
    }
    None
}

/// The node `n` with other operands.
pub fn rebuild(n: &Node, a: T, b: T, c: T) -> T {
    match n.op {
        Op::Const | Op::Var => unreachable!(),
        Op::Concat => concat(a, b),
        Op::Extract => extract(a, n.k as u16, n.w),
        Op::ZExt => zext(a, n.w),
        Op::SExt => sext(a, n.w),
        Op::Ite => ite(a, b, c),
        Op::U2F | Op::S2F | Op::F2U | Op::F2S | Op::FExt | Op::FTrunc | Op::FRoundInt | Op::FSqrt => mk1(n.op, n.w, a, n.k),
        op => mk2(op, n.w, a, b),
    }
}

pub fn mk1(op: Op, w: u16, a: T, k: u128) -> T {
    if let Some(x) = is_const(a) { return cst(w, fold(op, w, width(a), x, 0, 0, k, 0)); }
    if matches!(op, Op::U2F | Op::S2F) {
        let n = node(a);
        // an int->float conversion of an ite of constants keeps being an ite of constants
        if n.op == Op::Ite && (is_const(n.b).is_some() || is_const(n.c).is_some()) {
            let x = mk1(op, w, n.b, k);
            let y = mk1(op, w, n.c, k);
            return ite(n.a, x, y);
        }
        if n.op == Op::ZExt { return mk1(Op::U2F, w, n.a, k); }
    }
    raw(op, w, a, 0, 0, k)
}

#[derive(Default)]
pub struct Model {
    pub vals: HashMap<u32, u128>,
    pub memo: std::cell::RefCell<HashMap<T, u128, BuildFx>>,
}

pub fn eval(t: T, m: &Model) -> u128 {
    let n = node(t);
    match n.op {
        Op::Const => return n.k,
        Op::Var => return m.vals.get(&(n.k as u32)).copied().unwrap_or(0) & mask(n.w),
        _ => {}
    }
    if let Some(v) = m.memo.borrow().get(&t) { return *v; }
    // explicit stack: terms can be deep
    let mut stack = vec![t];
    while let Some(&x) = stack.last() {
        let n = node(x);
        if matches!(n.op, Op::Const | Op::Var) || m.memo.borrow().contains_key(&x) { stack.pop(); continue; }
        let get = |y: T| -> Option<u128> {
            if y == 0 { return Some(0); }
            let ny = node(y);
            match ny.op {
                Op::Const => Some(ny.k),
                Op::Var => Some(m.vals.get(&(ny.k as u32)).copied().unwrap_or(0) & mask(ny.w)),
                _ => m.memo.borrow().get(&y).copied(),
            }
        };
        let a = get(n.a);
        if n.op == Op::Ite {
            match a {
                None => { stack.push(n.a); continue; }
                Some(c) => {
                    let y = if c != 0 { n.b } else { n.c };
                    match get(y) {
                        None => { stack.push(y); continue; }
                        Some(v) => { m.memo.borrow_mut().insert(x, v); stack.pop(); continue; }
                    }
                }
            }
        }
        let b = get(n.b);
        match (a, b) {
            (Some(a), Some(b)) => {
                let v = fold(n.op, n.w, width(n.a), a, b, 0, n.k, if n.b != 0 { width(n.b) } else { 0 });
                m.memo.borrow_mut().insert(x, v);
                stack.pop();
            }
            _ => {
                if a.is_none() { stack.push(n.a); }
                if b.is_none() { stack.push(n.b); }
            }
        }
    }
    let r = m.memo.borrow()[&t];
    r
}

/// Human-readable rendering, for diagnostics.
pub fn show(t: T, d: u32) -> String {
    let n = node(t);
    match n.op {
        Op::Const => format!("{}:{}", n.k, n.w),
        Op::Var => format!("v{}", n.k),
        _ if d == 0 => "..".into(),
        Op::Extract => format!("{}[{}+{}]", show(n.a, d - 1), n.k, n.w),
        _ => {
            let mut s = format!("({:?}:{}", n.op, n.w);
            for x in [n.a, n.b, n.c] { if x != 0 { s += " "; s += &show(x, d - 1); } }
            s + ")"
        }
    }
}
