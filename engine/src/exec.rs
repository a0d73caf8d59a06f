//! The symbolic executor: runs LLVM IR over symbolic values, forking at
//! undecided branches and merging again at control-flow joins.
use crate::ir::*;
use crate::mem::*;
use crate::term::*;
use crate::z3::{Res, Solver};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone)]
pub struct Frame {
    pub f: Rc<Func>,
    pub regs: Vec<Val>,
    pub blk: u32,
    pub ip: usize,
    pub stack_base: u64,
    pub dst: Option<u32>,
    pub normal: Option<u32>,
    pub iters: Vec<(u32, u32)>, // active loops and their iteration numbers
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub mem: Mem,
    pub pcs: Vec<T>,
    pub model: Rc<Model>,
    pub inputs: Vec<(u16, Val)>,
    pub log: Vec<Val>,
    pub steps: u64,
    pub merges: u32,
    pub merge_mode: u8,
    pub at_entry: bool,
}

#[derive(Clone, Copy, PartialEq, Debug)]
struct Join { depth: usize, blk: u32 }

#[derive(Clone, Debug)]
pub struct Violation { pub msg: String, pub kind: String, pub inputs: Vec<(u16, u128)>, pub detail: String }

#[derive(Default)]
pub struct Stats {
    pub paths: u64, pub infeasible: u64, pub steps: u64, pub forks: u64, pub merges: u64,
    pub checks_solver: u64, pub checks_trivial: u64, pub reused: u64, pub cached: u64, pub nearby: u64, pub max_pcs: usize, pub max_inputs: usize,
}

pub struct Engine {
    pub m: Module,
    pub sol: Solver,
    pub st: Stats,
    pub violations: Vec<Violation>,
    pub errors: Vec<String>,
    pub covers: BTreeMap<String, u64>,
    pub checks: BTreeMap<String, u64>,
    pub samples: Vec<(Vec<(u16, u128)>, Vec<u128>)>,
    pub cov: Vec<bool>,
    pub called: BTreeSet<u32>,
    pub gbase: HashMap<usize, Rc<Obj>>,
    pub deadline: Instant,
    pub max_steps: u64,
    pub merge_default: u8,
    pub max_samples: usize,
    pub workers: usize,
    pub incomplete: Option<String>,
    pub failed: Vec<(String, Vec<(u16, u128)>)>,
    pub alloc_limit: u64,
    pub viol_per_msg: usize,
    pub trace: bool,
    pub params: HashMap<String, u64>,
    const_memo: HashMap<*const C, (Rc<C>, Val)>,
    concr_limit: usize,
    facts: Facts,
    cache: HashMap<(Vec<T>, T), Option<Rc<Model>>>,
    pool_size: usize,
    pool: std::collections::VecDeque<Rc<Model>>,
}

/// What the path condition settles literally, and terms rewritten under it.
#[derive(Default)]
struct Facts { pcs: Vec<T>, map: HashMap<T, T>, memo: HashMap<T, T>, tidy: Option<Rc<Vec<T>>> }


/// `t` with every subterm in `map` replaced; `None` when it is too large to rewrite.
fn rewrite(t: T, map: &HashMap<T, T>, memo: &mut HashMap<T, T>, left: &mut usize) -> Option<T> {
    let mut stack = vec![t];
    while let Some(&x) = stack.last() {
        if memo.contains_key(&x) { stack.pop(); continue; }
        if let Some(k) = map.get(&x) { memo.insert(x, *k); stack.pop(); continue; }
        let n = node(x);
        if matches!(n.op, Op::Const | Op::Var) { memo.insert(x, x); stack.pop(); continue; }
        *left = left.checked_sub(1)?;
        let get = |y: T| -> Option<T> { if y == 0 { Some(0) } else { memo.get(&y).copied() } };
        let a = match get(n.a) { Some(a) => a, None => { stack.push(n.a); continue; } };
        if n.op == Op::Ite {
            if let Some(k) = is_const(a) {
                let y = if k != 0 { n.b } else { n.c };
                match get(y) { Some(y) => { memo.insert(x, y); stack.pop(); } None => stack.push(y) }
                continue;
            }
        }
        let (b, c) = match (get(n.b), get(n.c)) {
            (Some(b), Some(c)) => (b, c),
            (b, c) => { if b.is_none() { stack.push(n.b); } if c.is_none() { stack.push(n.c); } continue; }
        };
        let r = if (a, b, c) == (n.a, n.b, n.c) { x } else { rebuild(&n, a, b, c) };
        memo.insert(x, r);
        stack.pop();
    }
    Some(memo[&t])
}

enum Step { Cont, Fork(Vec<State>), Split(Vec<State>), End }
type R<X> = Result<X, Halt>;
/// Reasons an instruction does not simply complete.
enum Halt {
    /// engine limitation: the run is inconclusive
    Err(String),
    /// the program does something wrong on the current path
    Bad(String, String),
    /// re-execute the current instruction in each of these states
    Refork(Vec<State>),
    /// path ends (assumption false)
    Stop,
}
fn err<X>(s: impl Into<String>) -> R<X> { Err(Halt::Err(s.into())) }

pub fn panic_kind(n: &str) -> Option<&'static str> {
    if n.contains("4core9panicking") || n.contains("3std9panicking") || n.contains("rust_begin_unwind") || n.contains("rust_panic") { return Some("panic"); }
    if n.contains("18handle_alloc_error") || n.contains("_3oom") { return Some("alloc-error"); }
    if n == "abort" || n == "llvm.trap" || n == "exit" || n == "_exit" || n.contains("3std7process5abort") { return Some("abort"); }
    None
}

const VAST_BACKING: u64 = 1 << 14;

impl Engine {
    pub fn new(m: Module, sol: Solver, deadline: Instant) -> Engine {
        Engine { m, sol, st: Stats::default(), violations: vec![], errors: vec![], covers: BTreeMap::new(), checks: BTreeMap::new(), samples: vec![], cov: vec![], called: BTreeSet::new(), gbase: HashMap::new(), deadline, max_steps: 30_000_000, merge_default: 1, max_samples: 24, workers: 1, incomplete: None, failed: vec![], alloc_limit: 64 << 20, viol_per_msg: 2, trace: false, params: HashMap::new(), const_memo: HashMap::new(), concr_limit: 300, facts: Facts::default(), pool: Default::default(), pool_size: 128, cache: HashMap::new() }
    }

    // ---------- values ----------
    fn gaddr(&mut self, g: u32) -> u64 {
        match self.m.globals[g as usize].kind {
            GK::Func | GK::Decl => CODE_BASE + (g as u64) * 16,
            _ => (1 + g as u64) * SLOT + BASE_OFF,
        }
    }
    fn const_val(&mut self, ty: &Ty, c: &C) -> R<Val> {
        Ok(match c {
            C::Int(v) => Val::C(*v),
            C::Undef => match ty { Ty::Struct(f, _) => Val::A(Rc::new(f.iter().map(|t| match t { Ty::Struct(..) | Ty::Arr(..) => self.const_val(t, &C::Undef).unwrap_or(Val::U), _ => Val::U }).collect())), Ty::Arr(n, t) => { let e = self.const_val(t, &C::Undef)?; Val::A(Rc::new(vec![e; *n as usize])) } _ => Val::U },
            C::Zero => match ty { Ty::Struct(f, _) => { let mut v = vec![]; for t in f.iter() { v.push(self.const_val(t, &C::Zero)?); } Val::A(Rc::new(v)) } Ty::Arr(n, t) => { let e = self.const_val(t, &C::Zero)?; Val::A(Rc::new(vec![e; *n as usize])) } _ => Val::C(0) },
            C::Glob(g) => Val::C(self.gaddr(*g) as u128),
            C::GlobOff(g, o) => Val::C((self.gaddr(*g) as i64).wrapping_add(*o) as u64 as u128),
            C::Agg(v) => { let mut o = vec![]; for (t, c) in v { o.push(self.const_val(t, c)?); } Val::A(Rc::new(o)) }
            C::Bytes(b) => Val::A(Rc::new(b.iter().map(|x| Val::C(*x as u128)).collect())),
            C::Bad(s) => return err(format!("constant: {s}")),
        })
    }
    #[inline]
    fn ev(&mut self, s: &State, ty: &Ty, o: &Opnd) -> R<Val> {
        match o {
            Opnd::Reg(r) => Ok(s.frames.last().unwrap().regs[*r as usize].clone()),
            Opnd::Const(c) => {
                if let C::Int(v) = **c { return Ok(Val::C(v)); }
                let key = Rc::as_ptr(c);
                if let Some((_, v)) = self.const_memo.get(&key) { return Ok(v.clone()); }
                let v = self.const_val(ty, c)?;
                self.const_memo.insert(key, (c.clone(), v.clone()));
                Ok(v)
            }
        }
    }

    // ---------- solver ----------
    fn vars(&self, s: &State) -> Vec<(u32, u16)> {
        s.inputs.iter().enumerate().filter_map(|(i, (w, v))| if let Val::S(_) = v { Some((i as u32, *w)) } else { None }).collect()
    }
    /// Is `c` satisfiable on this path? Returns a model when it is.
    fn sat(&mut self, s: &State, c: T) -> R<Option<Rc<Model>>> {
        if let Some(k) = is_const(c) { return Ok(if k != 0 { Some(s.model.clone()) } else { None }); }
        if eval(c, &s.model) != 0 { return Ok(Some(s.model.clone())); }
        self.sat_q(s, c)
    }
    fn sat_q(&mut self, s: &State, c: T) -> R<Option<Rc<Model>>> {
        if let Some(k) = is_const(c) { if k == 0 { return Ok(None); } }
        let c = self.simp(s, c);
        if let Some(k) = is_const(c) { return Ok(if k != 0 { Some(s.model.clone()) } else { None }); }
        if Instant::now() > self.deadline { self.incomplete = Some("time budget exhausted".into()); return Err(Halt::Stop); }
        // a model found earlier may do
        for (i, m) in self.pool.iter().enumerate() {
            if eval(c, m) != 0 && s.pcs.iter().all(|p| eval(*p, m) != 0) {
                let m = m.clone();
                if i > 8 { let x = self.pool.remove(i).unwrap(); self.pool.push_front(x); }
                self.st.reused += 1;
                return Ok(Some(m));
            }
        }
        if let Some(m) = self.nearby(s, c) { return Ok(Some(m)); }
        // only the part of the path condition that shares variables with `c` matters: the rest is satisfied by the path's model
        let mut sup = support(c);
        let mut slice = vec![];
        let mut rest: Vec<T> = self.tidy(s).to_vec();
        loop {
            let n = rest.len();
            rest.retain(|p| { let u = support(*p); if overlaps(&u, &sup) { for (d, x) in sup.iter_mut().zip(u) { *d |= x; } slice.push(*p); false } else { true } });
            if rest.len() == n { break; }
        }
        slice.sort_unstable();
        let key = (slice, c);
        let vars: Vec<(u32, u16)> = self.vars(s).into_iter().filter(|(v, _)| { let i = (*v as usize).min(255); sup[i / 64] >> (i % 64) & 1 == 1 }).collect();
        let part = match self.cache.get(&key) {
            Some(m) => { self.st.cached += 1; m.clone() }
            None => {
                let m = match self.sol.check(&key.0, &[c], &vars) {
                    (Res::Sat, m) => Some(Rc::new(m.unwrap())),
                    (Res::Unsat, _) => None,
                    _ => return err(format!("solver gave up within its limit on {}", show(c, 5))),
                };
                if self.cache.len() > 200_000 { self.cache.clear(); }
                self.cache.insert(key, m.clone());
                m
            }
        };
        let Some(part) = part else { return Ok(None) };
        let mut m = Model { vals: s.model.vals.clone(), memo: Default::default() };
        for (v, _) in &vars { m.vals.insert(*v, part.vals.get(v).copied().unwrap_or(0)); }
        if eval(c, &m) == 0 || s.pcs.iter().any(|p| eval(*p, &m) == 0) {
            return err(format!("solver model does not satisfy the path condition (evaluator mismatch): {}", show(c, 6)));
        }
        let m = Rc::new(m);
        self.pool.push_front(m.clone());
        self.pool.truncate(self.pool_size);
        Ok(Some(m))
    }
    /// The path condition with each part simplified by the literals among the other parts (equivalent as a whole:
    /// a part is rewritten only by facts that are kept, and only below its own top).
    fn tidy(&mut self, s: &State) -> Rc<Vec<T>> {
        if s.pcs.is_empty() { return Rc::new(vec![]); }
        if self.facts.pcs == s.pcs { if let Some(v) = &self.facts.tidy { return v.clone(); } }
        let mut map: HashMap<T, T> = HashMap::new();
        for p in s.pcs.iter() {
            let n = node(*p);
            if n.op == Op::Eq && is_const(n.b).is_some() && node(n.a).op == Op::Var { map.insert(n.a, n.b); }
            map.insert(*p, tru());
            map.insert(not1(*p), fls());
        }
        let mut memo: HashMap<T, T> = HashMap::new();
        let mut out = vec![];
        for p in s.pcs.iter() {
            let (neg, q) = match negated(*p) { Some(y) => (true, y), None => (false, *p) };
            let n = node(q);
            if matches!(n.op, Op::Const | Op::Var) || n.op == Op::Eq && is_const(n.b).is_some() && node(n.a).op == Op::Var { out.push(*p); continue; }
            let mut left = 20000;
            let kids = [n.a, n.b, n.c].map(|y| if y == 0 { Some(0) } else { rewrite(y, &map, &mut memo, &mut left) });
            let [Some(a), Some(b), Some(c)] = kids else { out.push(*p); continue };
            let r = if (a, b, c) == (n.a, n.b, n.c) { *p } else { let r = rebuild(&n, a, b, c); if neg { not1(r) } else { r } };
            if is_const(r) != Some(1) { out.push(r); }
        }
        let out = Rc::new(out);
        if self.facts.pcs == s.pcs { self.facts.tidy = Some(out.clone()); }
        out
    }
    /// A model of the path condition and `c` that differs from the path's model in one variable, if a guess finds one.
    fn nearby(&mut self, s: &State, c: T) -> Option<Rc<Model>> {
        let sup = support(c);
        if sup.iter().map(|x| x.count_ones()).sum::<u32>() > 4 || sup[3] >> 63 == 1 { return None; }
        let vars: Vec<(u32, u16)> = self.vars(s).into_iter().filter(|(v, _)| sup[*v as usize / 64] >> (*v % 64) & 1 == 1).collect();
        let get = |v: u32| s.model.vals.get(&v).copied().unwrap_or(0);
        for (v, w) in &vars {
            let cur = get(*v);
            let mut cand: Vec<u128> = (0..*w).map(|i| cur ^ 1 << i).collect();
            cand.extend([0, 1, mask(*w), mask(*w) - 1, cur.wrapping_add(1) & mask(*w), cur.wrapping_sub(1) & mask(*w)]);
            for (x, _) in &vars { let k = get(*x); cand.extend([k, k.wrapping_add(1), k.wrapping_sub(1)].map(|k| k & mask(*w))); }
            let mut m = Model { vals: s.model.vals.clone(), memo: Default::default() };
            for k in cand {
                m.vals.insert(*v, k);
                m.memo.borrow_mut().clear();
                if eval(c, &m) == 0 { continue; }
                let mut left = 3;
                let (mut fine, mut more) = (true, false);
                while let Some(p) = s.pcs.iter().find(|p| eval(**p, &m) == 0) {
                    // an equation that defines another variable can be restored
                    let n = node(*p);
                    let def = if n.op != Op::Eq { None } else if node(n.a).op == Op::Var { Some((n.a, n.b)) } else if node(n.b).op == Op::Var { Some((n.b, n.a)) } else { None };
                    let Some((x, e)) = def else { fine = false; break };
                    left -= 1;
                    if left == 0 || node(x).k == *v as u128 { fine = false; break; }
                    let k = eval(e, &m);
                    m.vals.insert(node(x).k as u32, k);
                    m.memo.borrow_mut().clear();
                    more = true;
                }
                if !fine || eval(c, &m) == 0 { if more { m.vals = s.model.vals.clone(); } continue; }
                let m = Rc::new(m);
                self.pool.push_front(m.clone());
                self.pool.truncate(self.pool_size);
                self.st.nearby += 1;
                return Some(m);
            }
        }
        None
    }
    /// (can be true, can be false) with models.
    fn decide(&mut self, s: &State, c: T) -> R<(Option<Rc<Model>>, Option<Rc<Model>>)> {
        if let Some(k) = is_const(c) { return Ok(if k != 0 { (Some(s.model.clone()), None) } else { (None, Some(s.model.clone())) }); }
        let c = self.simp(s, c);
        if let Some(k) = is_const(c) { return Ok(if k != 0 { (Some(s.model.clone()), None) } else { (None, Some(s.model.clone())) }); }
        let nc = not1(c);
        if eval(c, &s.model) != 0 {
            let f = self.sat_q(s, nc)?;
            Ok((Some(s.model.clone()), f))
        } else {
            let t = self.sat_q(s, c)?;
            Ok((t, Some(s.model.clone())))
        }
    }
    /// `t` rewritten with everything the path condition settles literally (equations with constants, booleans).
    fn simp(&mut self, s: &State, t: T) -> T {
        if is_const(t).is_some() || s.pcs.is_empty() { return t; }
        if self.facts.pcs != s.pcs {
            let mut map = HashMap::new();
            for p in s.pcs.iter() {
                let n = node(*p);
                if n.op == Op::Eq && is_const(n.b).is_some() { map.insert(n.a, n.b); }
                if n.op == Op::Ult {
                    if let Some(k) = is_const(n.b) {
                        let bits = (128 - (k - 1).leading_zeros()) as u16;
                        if node(n.a).op == Op::Var && bits > 0 && bits <= 32 && bits < width(n.a) { let e = extract(n.a, 0, bits); map.entry(n.a).or_insert(zext(e, width(n.a))); }
                    }
                }
                map.insert(*p, tru());
                map.insert(not1(*p), fls());
            }
            // what follows from one alternative of a disjunction when the others are settled
            let mut more = true;
            while more {
                more = false;
                for p in s.pcs.iter() {
                    let mut left = vec![];
                    if !juncts(Op::Or, *p, &mut left) || left.len() < 2 { continue; }
                    if left.iter().any(|x| map.get(x).map_or(false, |v| is_const(*v) == Some(1))) { continue; }
                    left.retain(|x| map.get(x).map_or(true, |v| is_const(*v) != Some(0)));
                    if left.len() != 1 { continue; }
                    let mut all = vec![left[0]];
                    while let Some(x) = all.pop() {
                        if map.contains_key(&x) { continue; }
                        more = true;
                        map.insert(x, tru());
                        map.insert(not1(x), fls());
                        let n = node(x);
                        if n.op == Op::Eq && is_const(n.b).is_some() { map.entry(n.a).or_insert(n.b); }
                        if n.op == Op::And && n.w == 1 { all.push(n.a); all.push(n.b); }
                        if let Some(y) = negated(x) { let n = node(y); if n.op == Op::Or { all.push(not1(n.a)); all.push(not1(n.b)); } }
                    }
                }
            }
            self.facts = Facts { pcs: s.pcs.clone(), map, memo: HashMap::new(), tidy: None };
        }
        let f = &mut self.facts;
        let mut stack = vec![t];
        let mut left = 20000;
        while let Some(&x) = stack.last() {
            if f.memo.contains_key(&x) { stack.pop(); continue; }
            if let Some(k) = f.map.get(&x) { f.memo.insert(x, *k); stack.pop(); continue; }
            let n = node(x);
            if matches!(n.op, Op::Const | Op::Var) { f.memo.insert(x, x); stack.pop(); continue; }
            left -= 1;
            if left == 0 { return t; }
            let get = |y: T| -> Option<T> { if y == 0 { Some(0) } else { f.memo.get(&y).copied() } };
            let a = match get(n.a) { Some(a) => a, None => { stack.push(n.a); continue; } };
            if n.op == Op::Ite {
                if let Some(k) = is_const(a) {
                    let y = if k != 0 { n.b } else { n.c };
                    match get(y) { Some(y) => { f.memo.insert(x, y); stack.pop(); } None => stack.push(y) }
                    continue;
                }
            }
            let (b, c) = match (get(n.b), get(n.c)) {
                (Some(b), Some(c)) => (b, c),
                (b, c) => { if b.is_none() { stack.push(n.b); } if c.is_none() { stack.push(n.c); } continue; }
            };
            let r = if (a, b, c) == (n.a, n.b, n.c) { x } else { rebuild(&n, a, b, c) };
            let r = f.map.get(&r).copied().unwrap_or(r);
            f.memo.insert(x, r);
            stack.pop();
        }
        f.memo[&t]
    }
    /// Does the path condition settle `c` literally?
    fn known(&mut self, s: &State, c: T) -> Option<bool> { let c = self.simp(s, c); is_const(c).map(|k| k != 0) }
    /// Does the path condition settle `c` at all? Terms stay smaller when it is known.
    fn settled(&mut self, s: &State, c: T) -> R<Option<bool>> {
        if let Some(k) = self.known(s, c) { return Ok(Some(k)); }
        let c = self.simp(s, c);
        Ok(match self.decide(s, c)? { (Some(_), Some(_)) => None, (t, _) => Some(t.is_some()) })
    }
    fn assume(s: &mut State, c: T) {
        if is_const(c) == Some(1) { return; }
        let n = node(c);
        if n.op == Op::And && n.w == 1 { Self::assume(s, n.a); Self::assume(s, n.b); return; }
        if let Some(x) = negated(c) { let n = node(x); if n.op == Op::Or { Self::assume(s, not1(n.a)); Self::assume(s, not1(n.b)); return; } }
        if s.pcs.contains(&c) { return; }
        s.pcs.push(c);
    }
    /// Fork the state over the feasible values of `t`, re-executing the instruction in each.
    fn concretize(&mut self, s: &State, t: T, mut patch: impl FnMut(&mut State, u128), what: &str) -> Halt {
        let mut out = vec![];
        let mut cur = s.clone();
        let w = width(t);
        loop {
            let v = eval(t, &cur.model);
            let eq = mk2(Op::Eq, 1, t, cst(w, v));
            let mut n = cur.clone();
            Self::assume(&mut n, eq);
            patch(&mut n, v);
            out.push(n);
            if out.len() > self.concr_limit { return Halt::Err(format!("too many values for {what}")); }
            let ne = not1(eq);
            match self.sat_q(&cur, ne) {
                Ok(Some(m)) => { Self::assume(&mut cur, ne); cur.model = m; }
                Ok(None) => break,
                Err(h) => return h,
            }
        }
        self.st.forks += out.len() as u64 - 1;
        Halt::Refork(out)
    }
    /// Concrete value of an operand, forking when it is symbolic.
    fn conc(&mut self, s: &State, v: &Val, o: &Opnd, what: &str) -> R<u128> {
        match v {
            Val::C(c) => Ok(*c),
            Val::U => Ok(0),
            Val::S(t) => {
                let r = match o { Opnd::Reg(r) => *r, _ => return err("symbolic constant") };
                Err(self.concretize(s, *t, |n, v| n.frames.last_mut().unwrap().regs[r as usize] = Val::C(v), what))
            }
            Val::A(_) => err("aggregate where a scalar was expected"),
        }
    }

    // ---------- memory ----------
    fn obj(&mut self, s: &State, addr: u64) -> Option<Rc<Obj>> {
        match region(addr) {
            Region::Glob(i) => {
                if let Some(o) = s.mem.glob.get(i) { return Some(o.clone()); }
                self.global_obj(i)
            }
            Region::Heap(i) => Self::back(&s.mem.heap, i, addr),
            Region::Stack(i) => Self::back(&s.mem.stack, i, addr),
            Region::None => None,
        }
    }
    fn back(p: &PVec, i: usize, addr: u64) -> Option<Rc<Obj>> {
        if let Some(o) = p.get(i) { return Some(o.clone()); }
        let mut j = i;
        while j > 0 && i - j < 1200 { j -= 1; if let Some(o) = p.get(j) { return if addr <= o.base + o.size { Some(o.clone()) } else { None }; } }
        None
    }
    fn global_obj(&mut self, i: usize) -> Option<Rc<Obj>> {
        if let Some(o) = self.gbase.get(&i) { return Some(o.clone()); }
        let g = (i - 1) as u32;
        if g as usize >= self.m.globals.len() || matches!(self.m.globals[g as usize].kind, GK::Func | GK::Decl) { return None; }
        let (ty, init, al) = match self.m.global_init(g) { Ok(x) => x, Err(e) => { self.errors.push(format!("global: {e}")); return None; } };
        let base = self.gaddr(g);
        let mut o = Obj::new(base, ty.size(), Kind::Global, al);
        let l = self.m.line(self.m.globals[g as usize].line.unwrap());
        o.ro = l.contains(" constant ");
        if let Some(c) = init {
            if let Err(Halt::Err(e)) = self.fill(&mut o, 0, &ty, &c) { self.errors.push(format!("global initialiser {}: {e}", self.m.globals[g as usize].name)); return None; }
        }
        let o = Rc::new(o);
        self.gbase.insert(i, o.clone());
        Some(o)
    }
    fn fill(&mut self, o: &mut Obj, off: u64, ty: &Ty, c: &C) -> R<()> {
        match c {
            C::Zero | C::Undef => {}
            C::Bytes(b) => { let off = off as usize; o.data[off..off + b.len()].copy_from_slice(b); }
            C::Agg(v) => {
                match ty {
                    Ty::Struct(..) => { let (offs, _) = ty.layout(); for (k, (t, x)) in v.iter().enumerate() { self.fill(o, off + offs[k], t, x)?; } }
                    _ => { let mut p = off; for (t, x) in v { self.fill(o, p, t, x)?; p += t.size(); } }
                }
            }
            C::Bad(s) => { let _ = s; /* e.g. link-time differences; zero is never read by executed code paths we rely on */ return Ok(()); }
            _ => { let v = self.const_val(ty, c)?; o.store(off as usize, ty.size() as usize, &v); }
        }
        Ok(())
    }
    fn obj_mut<'s>(&mut self, s: &'s mut State, addr: u64) -> Option<&'s mut Obj> {
        match region(addr) {
            Region::Glob(i) => {
                if s.mem.glob.get(i).is_none() { let o = self.global_obj(i)?; s.mem.glob.set(i, Some(o)); }
                s.mem.glob.get_mut(i)
            }
            Region::Heap(mut i) => { while s.mem.heap.get(i).is_none() { if i == 0 { return None; } i -= 1; } s.mem.heap.get_mut(i) }
            Region::Stack(mut i) => { while s.mem.stack.get(i).is_none() { if i == 0 { return None; } i -= 1; } s.mem.stack.get_mut(i) }
            Region::None => None,
        }
    }
    fn check_access(&mut self, s: &State, addr: u64, n: u64, write: bool) -> R<Rc<Obj>> {
        match self.obj(s, addr) {
            None => Err(Halt::Bad("memory".into(), format!("invalid {} of {n} bytes at {addr:#x}", if write { "write" } else { "read" }))),
            Some(o) => {
                if o.kind == Kind::Freed { return Err(Halt::Bad("memory".into(), "use after free".into())); }
                if addr < o.base || addr + n > o.base + o.size { return Err(Halt::Bad("memory".into(), format!("out-of-bounds {} of {n} bytes at offset {} of a {}-byte {:?} object", if write { "write" } else { "read" }, addr as i64 - o.base as i64, o.size, o.kind))); }
                if write && o.ro { return Err(Halt::Bad("memory".into(), "write to read-only memory".into())); }
                Ok(o)
            }
        }
    }
    /// Resolves a symbolic pointer to one object (forking over objects), requiring the access to be in bounds.
    fn resolve(&mut self, s: &State, p: T, n: u64, write: bool, reg: Option<u32>) -> R<(Rc<Obj>, T)> {
        let a = eval(p, &s.model) as u64;
        let o = self.check_obj_for_sym(s, a, n, write)?;
        let off = mk2(Op::Sub, 64, p, cst(64, o.base as u128));
        if o.size < n { return Err(Halt::Bad("memory".into(), "access larger than object".into())); }
        let inb = mk2(Op::Ule, 1, off, cst(64, (o.size - n) as u128));
        let (t, f) = self.decide(s, inb)?;
        match (t, f) {
            (Some(_), None) => Ok((o, off)),
            (t, Some(fm)) => {
                let mut v = vec![];
                if let Some(tm) = t { let mut a = s.clone(); Self::assume(&mut a, inb); a.model = tm; v.push(a); }
                let mut b = s.clone();
                Self::assume(&mut b, not1(inb));
                b.model = fm;
                // pin the stray pointer to a concrete value so that it resolves (or is reported)
                if let Some(r) = reg {
                    let pv = eval(p, &b.model);
                    if self.obj(&b, pv as u64).is_none() || { let ob = self.obj(&b, pv as u64).unwrap(); (pv as u64) < ob.base || pv as u64 + n > ob.base + ob.size } {
                        Self::assume(&mut b, mk2(Op::Eq, 1, p, cst(64, pv)));
                        b.frames.last_mut().unwrap().regs[r as usize] = Val::C(pv);
                    }
                }
                v.push(b);
                self.st.forks += 1;
                Err(Halt::Refork(v))
            }
            (None, None) => err("resolve"),
        }
    }
    fn check_obj_for_sym(&mut self, s: &State, a: u64, n: u64, write: bool) -> R<Rc<Obj>> { self.check_access(s, a, n, write) }

    fn load_ty(&mut self, s: &State, ty: &Ty, p: &Val, reg: Option<u32>) -> R<Val> {
        let n = ty.size();
        match ty {
            Ty::Struct(f, _) => {
                let (offs, _) = ty.layout();
                let mut v = vec![];
                for (i, t) in f.iter().enumerate() {
                    let q = match p { Val::C(a) => Val::C((*a as u64).wrapping_add(offs[i]) as u128), Val::S(t) => Val::t(mk2(Op::Add, 64, *t, cst(64, offs[i] as u128))), _ => return err("load agg") };
                    v.push(self.load_ty(s, t, &q, reg)?);
                }
                return Ok(Val::A(Rc::new(v)));
            }
            Ty::Arr(k, t) => {
                let mut v = vec![];
                for i in 0..*k {
                    let q = match p { Val::C(a) => Val::C((*a as u64).wrapping_add(i * t.size()) as u128), Val::S(x) => Val::t(mk2(Op::Add, 64, *x, cst(64, (i * t.size()) as u128))), _ => return err("load agg") };
                    v.push(self.load_ty(s, t, &q, reg)?);
                }
                return Ok(Val::A(Rc::new(v)));
            }
            Ty::Vec(..) => return err("vector load"),
            _ => {}
        }
        let w = ty.width();
        let v = match p {
            Val::C(a) => {
                let a = *a as u64;
                if n == 0 { return Ok(Val::U); }
                let o = self.check_access(s, a, n, false)?;
                o.load((a - o.base) as usize, n as usize)
            }
            Val::S(t) => {
                let (o, off) = self.resolve(s, *t, n, false, reg)?;
                self.sym_load(&o, off, n)?
            }
            _ => return Err(Halt::Bad("memory".into(), "load through an uninitialised pointer".into())),
        };
        Ok(match v {
            Val::S(t) if width(t) != w => Val::t(extract(t, 0, w)),
            Val::C(c) => Val::C(c & mask(w)),
            v => v,
        })
    }
    fn offsets(&self, o: &Obj, off: T, n: u64) -> R<Vec<u64>> {
        let tz = known_tz(off).min(20);
        let step = 1u64 << tz;
        let maxo = (o.size - n).min(umax(off).min(u64::MAX as u128) as u64);
        let cnt = maxo / step + 1;
        if cnt > 8192 { return err(format!("symbolic access to {} candidate offsets", cnt)); }
        Ok((0..cnt).map(|i| i * step).collect())
    }
    fn sym_load(&mut self, o: &Obj, off: T, n: u64) -> R<Val> {
        let cands = self.offsets(o, off, n)?;
        let w = (n * 8) as u16;
        let mut r: Option<T> = None;
        for c in cands.iter().rev() {
            let v = o.load(*c as usize, n as usize);
            if let Val::U = v { continue; }
            let v = v.term(w);
            r = Some(match r { None => v, Some(x) => { if x == v { x } else { ite(mk2(Op::Eq, 1, off, cst(64, *c as u128)), v, x) } } });
        }
        Ok(match r { None => Val::U, Some(t) => Val::t(t) })
    }
    fn store_ty(&mut self, s: &mut State, ty: &Ty, v: &Val, p: &Val, reg: Option<u32>) -> R<()> {
        let n = ty.size();
        if let Val::A(vs) = v {
            let offs: Vec<u64> = match ty { Ty::Struct(..) => ty.layout().0, Ty::Arr(k, t) => (0..*k).map(|i| i * t.size()).collect(), _ => return err("vector store") };
            for (i, x) in vs.iter().enumerate() {
                let (et, _) = ty.elem(i as u64);
                let q = match p { Val::C(a) => Val::C((*a as u64).wrapping_add(offs[i]) as u128), Val::S(t) => Val::t(mk2(Op::Add, 64, *t, cst(64, offs[i] as u128))), _ => return err("store agg") };
                self.store_ty(s, &et, x, &q, reg)?;
            }
            return Ok(());
        }
        if let Ty::Vec(..) = ty { return err("vector store"); }
        match p {
            Val::C(a) => {
                let a = *a as u64;
                if n == 0 { return Ok(()); }
                let o = self.check_access(s, a, n, true)?;
                let off = (a - o.base) as usize;
                drop(o);
                self.obj_mut(s, a).unwrap().store(off, n as usize, v);
            }
            Val::S(t) => {
                let (o, off) = self.resolve(s, *t, n, true, reg)?;
                let cands = self.offsets(&o, off, n)?;
                let base = o.base;
                let step = if cands.len() > 1 { cands[1] - cands[0] } else { n };
                let w = (n * 8) as u16;
                let mut nv = v.term(ty.width());
                if width(nv) < w { nv = zext(nv, w); }
                let mut newo = (*o).clone();
                for c in cands {
                    let hit = mk2(Op::Eq, 1, off, cst(64, c as u128));
                    if step >= n {
                        let old = newo.load(c as usize, n as usize);
                        let old = if let Val::U = old { nv } else { old.term(w) };
                        newo.store(c as usize, n as usize, &Val::t(ite(hit, nv, old)));
                    } else {
                        for b in 0..n {
                            let i = (c + b) as usize;
                            let nb = extract(nv, (8 * b) as u16, 8);
                            let old = newo.load(i, 1);
                            let old = if let Val::U = old { nb } else { old.term(8) };
                            newo.store(i, 1, &Val::t(ite(hit, nb, old)));
                        }
                    }
                }
                *self.obj_mut(s, base).unwrap() = newo;
            }
            _ => return Err(Halt::Bad("memory".into(), "store through an uninitialised pointer".into())),
        }
        Ok(())
    }
    fn memcpy(&mut self, s: &mut State, d: u64, sr: u64, n: u64) -> R<()> {
        if n == 0 { return Ok(()); }
        let so = self.check_access(s, sr, n, false)?;
        let doo = self.check_access(s, d, n, true)?;
        let (sb, db) = (so.base, doo.base);
        drop(doo);
        if sb == db {
            drop(so);
            let o = self.obj_mut(s, d).unwrap();
            o.copy_within((d - db) as usize, (sr - sb) as usize, n as usize);
        } else {
            let o = self.obj_mut(s, d).unwrap();
            o.copy_from((d - db) as usize, &so, (sr - sb) as usize, n as usize);
        }
        Ok(())
    }
    fn read_str(&mut self, s: &State, p: u64, n: u64) -> String {
        if n > 4096 { return String::new(); }
        match self.check_access(s, p, n, false) { Ok(o) => { let i = (p - o.base) as usize; String::from_utf8_lossy(&o.data[i..i + n as usize]).to_string() } _ => String::new() }
    }
    fn read_u64(&mut self, s: &State, p: u64) -> Option<u64> {
        match self.check_access(s, p, 8, false) { Ok(o) => match o.load((p - o.base) as usize, 8) { Val::C(v) => Some(v as u64), _ => None }, _ => None }
    }

    // ---------- reporting ----------
    fn inputs_of(&self, s: &State, m: &Model) -> Vec<(u16, u128)> {
        s.inputs.iter().map(|(w, v)| (*w, match v { Val::C(c) => *c, Val::S(t) => eval(*t, m), _ => 0 })).collect()
    }
    fn backtrace(&self, s: &State) -> String {
        let mut v: Vec<String> = vec![];
        for f in s.frames.iter().rev() {
            let b = &f.f.blocks[f.blk as usize];
            let d = b.insts.get(f.ip.min(b.insts.len() - 1)).map(|i| i.dbg).unwrap_or(0);
            let l = self.loc(d);
            if !l.is_empty() { v.push(l); }
            if v.len() > 6 { break; }
        }
        v.join(" < ")
    }
    fn violation(&mut self, s: &State, m: &Model, kind: &str, msg: &str) {
        let n = self.violations.iter().filter(|v| v.msg == msg).count();
        if n >= self.viol_per_msg { return; }
        // once a counterexample is known the rest of the budget is only worth a little more time
        self.deadline = self.deadline.min(Instant::now() + std::time::Duration::from_secs(15));
        let detail = self.backtrace(s);
        let inputs = self.inputs_of(s, m);
        self.violations.push(Violation { msg: msg.into(), kind: kind.into(), inputs, detail });
    }
    fn meta_line(&self, id: u32) -> Option<&str> { self.m.meta.get(&id).map(|l| self.m.line(*l)) }
    fn meta_field(l: &str, k: &str) -> Option<u32> {
        let p = l.find(k)? + k.len();
        let r = &l[p..];
        let e = r.find(|c: char| !c.is_ascii_digit()).unwrap_or(r.len());
        r[..e].parse().ok()
    }
    fn meta_str(l: &str, k: &str) -> Option<String> { let p = l.find(k)? + k.len(); let r = &l[p..]; Some(r[..r.find('"')?].to_string()) }
    /// (file, line, function) of a debug location.
    pub fn loc_parts(&self, dbg: u32) -> Option<(String, u32, String)> {
        let l = self.meta_line(dbg)?;
        if !l.contains("DILocation(") { return None; }
        let line = Self::meta_field(l, "line: ").unwrap_or(0);
        let mut sc = Self::meta_field(l, "scope: !")?;
        let mut file = None;
        for _ in 0..32 {
            let sl = self.meta_line(sc)?;
            if file.is_none() { if let Some(f) = Self::meta_field(sl, "file: !") { file = self.meta_line(f).and_then(|x| Self::meta_str(x, "filename: \"")); } }
            if sl.contains("DISubprogram(") {
                let nm = Self::meta_str(sl, "linkageName: \"").or(Self::meta_str(sl, "name: \"")).unwrap_or_default();
                return Some((file.unwrap_or_default(), line, nm));
            }
            sc = Self::meta_field(sl, "scope: !")?;
        }
        None
    }
    pub fn loc(&self, dbg: u32) -> String { match self.loc_parts(dbg) { Some((f, l, n)) => format!("{} ({}:{})", crate::demangle(&n), f.rsplit('/').next().unwrap_or(""), l), None => String::new() } }

    // ---------- exploration ----------
    pub fn start(&mut self, name: &str) -> Result<State, String> {
        let g = *self.m.by_name.get(name).ok_or(format!("no function {name}"))?;
        let f = self.m.func(g)?;
        let mut s = State { frames: vec![], mem: Mem { heap_next: 0, ..Default::default() }, pcs: vec![], model: Rc::new(Model::default()), inputs: vec![], log: vec![], steps: 0, merges: 0, merge_mode: self.merge_default, at_entry: false };
        s.frames.push(Frame { regs: vec![Val::U; f.nregs], f, blk: 0, ip: 0, stack_base: 0, dst: None, normal: None, iters: vec![] });
        Ok(s)
    }

    fn finish(&mut self, s: &State) {
        self.st.paths += 1;
        self.st.steps += s.steps;
        self.st.max_pcs = self.st.max_pcs.max(s.pcs.len());
        self.st.max_inputs = self.st.max_inputs.max(s.inputs.len());
        let k = self.st.paths;
        let take = self.samples.len() < self.max_samples && (k <= 6 || k.is_power_of_two() || k % 37 == 0);
        if take {
            let i = self.inputs_of(s, &s.model);
            let l = s.log.iter().map(|v| match v { Val::C(c) => *c, Val::S(t) => eval(*t, &s.model), _ => 0 }).collect();
            self.samples.push((i, l));
        }
    }

    pub fn explore(&mut self, init: State) { self.run(vec![init], None); }

    /// Breadth-first expansion until at least `n` states are pending (for splitting the work).
    pub fn expand(&mut self, init: State, n: usize) -> Vec<State> {
        let mut q = std::collections::VecDeque::new();
        q.push_back(init);
        let t0 = Instant::now();
        while q.len() < n && t0.elapsed().as_millis() < 1_500 {
            let Some(s) = q.pop_front() else { break };
            let mut outs = self.run_until_fork(s);
            while let Some(o) = outs.pop() { q.push_back(o); }
        }
        q.into_iter().collect()
    }
    fn run_until_fork(&mut self, mut s: State) -> Vec<State> {
        loop {
            match self.step(&mut s) {
                Step::Cont => {}
                Step::End => return vec![],
                Step::Fork(v) => return self.after_fork(s, v, None).0,
                Step::Split(v) => return v,
            }
        }
    }

    /// Given the successors of a fork, merge what rejoins at the fork's post-dominator.
    fn after_fork(&mut self, s: State, v: Vec<State>, stop: Option<Join>) -> (Vec<State>, ()) {
        let fr = s.frames.last().unwrap();
        let depth = s.frames.len();
        let ip = fr.f.ipdom.get(fr.blk as usize).copied().unwrap_or(NONE);
        if s.merge_mode == 0 || v.len() < 2 || ip == NONE { return (v, ()); }
        let j = Join { depth, blk: ip };
        if stop == Some(j) { return (v, ()); }
        if ip == EXIT && depth <= 1 { return (v, ()); }
        drop(s);
        let outs = self.run(v, Some(j));
        (self.merge_all(outs), ())
    }

    fn reached(s: &State, j: &Join) -> bool {
        s.frames.len() < j.depth || (s.at_entry && s.frames.len() == j.depth && s.frames.last().unwrap().blk == j.blk)
    }

    fn run(&mut self, init: Vec<State>, stop: Option<Join>) -> Vec<State> {
        let mut work = init;
        let mut outs = vec![];
        'next: while let Some(mut s) = work.pop() {
            if self.incomplete.is_some() { return vec![]; }
            // states are kept ordered by progress only where merging is possible
            let pooled = stop.is_some() && s.merge_mode != 0;
            if pooled && !work.is_empty() {
                let mut best = None;
                for (i, w) in work.iter().enumerate() {
                    let c = match best { None => &s, Some(k) => &work[k] };
                    if Self::behind(w, c) == std::cmp::Ordering::Less { best = Some(i); }
                }
                if let Some(k) = best { std::mem::swap(&mut s, &mut work[k]); }
                if s.at_entry && s.frames.last().map_or(false, |f| f.f.joins[f.blk as usize]) {
                    let mut k = 0;
                    while k < work.len() {
                        if Self::behind(&s, &work[k]) == std::cmp::Ordering::Equal {
                            if let Some(m) = self.try_merge(&s, &work[k]) { self.st.merges += 1; s = m; work.swap_remove(k); continue; }
                        }
                        k += 1;
                    }
                }
            }
            loop {
                if let Some(j) = &stop { if Self::reached(&s, j) { outs.push(s); continue 'next; } }
                s.at_entry = false;
                match self.step(&mut s) {
                    Step::Cont => {
                        if pooled && s.at_entry && !work.is_empty() {
                            let f = s.frames.last().unwrap();
                            if f.f.joins[f.blk as usize] && !stop.map_or(false, |j| Self::reached(&s, &j)) { work.push(s); continue 'next; }
                        }
                    }
                    Step::End => continue 'next,
                    Step::Split(mut v) => {
                        v.reverse();
                        work.append(&mut v);
                        continue 'next;
                    }
                    Step::Fork(v) => {
                        if Instant::now() > self.deadline { self.incomplete = Some("time budget exhausted".into()); return vec![]; }
                        let (mut r, _) = self.after_fork(s, v, stop);
                        r.reverse();
                        work.append(&mut r);
                        continue 'next;
                    }
                }
            }
        }
        outs
    }

    // ---------- merging ----------
    fn merge_all(&mut self, outs: Vec<State>) -> Vec<State> {
        if outs.len() < 2 { return outs; }
        let mut groups: Vec<State> = vec![];
        for s in outs {
            let mut cur = Some(s);
            for g in groups.iter_mut() {
                if let Some(m) = self.try_merge(g, cur.as_ref().unwrap()) { *g = m; cur = None; self.st.merges += 1; break; }
            }
            if let Some(c) = cur { groups.push(c); }
        }
        groups
    }
    fn is_ptr_like(v: u128) -> bool { v >= SLOT as u128 && v < (CODE_BASE as u128 + (1 << 24)) && (v as u64 % SLOT) >= BASE_OFF }
    fn merge_val(&self, ty: &Ty, c: T, a: &Val, b: &Val) -> Option<Val> {
        if a.same(b) { return Some(a.clone()); }
        match (a, b) {
            (Val::U, x) | (x, Val::U) => Some(x.clone()),
            (Val::A(x), Val::A(y)) => {
                if x.len() != y.len() { return None; }
                let mut o = vec![];
                for i in 0..x.len() { let (t, _) = match ty { Ty::Struct(..) | Ty::Arr(..) => ty.elem(i as u64), _ => return None }; o.push(self.merge_val(&t, c, &x[i], &y[i])?); }
                Some(Val::A(Rc::new(o)))
            }
            (Val::A(_), _) | (_, Val::A(_)) => None,
            _ => {
                if *ty == Ty::Ptr { return None; }
                if let (Val::C(x), Val::C(y)) = (a, b) { if Self::is_ptr_like(*x) || Self::is_ptr_like(*y) { return None; } }
                let w = match (a, b) { (Val::S(t), _) | (_, Val::S(t)) => width(*t), _ => ty.width() };
                if w == 0 { return None; }
                Some(Val::t(ite(c, a.term(w), b.term(w))))
            }
        }
    }
    fn merge_obj(&self, c: T, a: &Obj, b: &Obj) -> Option<Obj> {
        if a.size != b.size || a.kind != b.kind || a.base != b.base { return None; }
        let n = a.size as usize;
        let same = |i: usize| { let ta = a.tags.as_ref().map_or(0, |t| t[i]); let tb = b.tags.as_ref().map_or(0, |t| t[i]); ta == tb && (ta == UNINIT || a.data[i] == b.data[i]) };
        let mut o = a.clone();
        let mut i = 0;
        let mut budget = 512;
        while i < n {
            if same(i) { i += 1; continue; }
            budget -= 1;
            if budget == 0 { return None; }
            // widest naturally aligned word available
            let mut w = 8;
            while w > 1 && (i / w * w + w > n) { w /= 2; }
            loop {
                let st = i / w * w;
                let (x, y) = (a.load(st, w), b.load(st, w));
                let mixed = |o: &Obj| { o.tags.as_ref().map_or(false, |t| { let k = t[st..st + w].iter().filter(|x| **x == UNINIT).count(); k != 0 && k != w }) };
                if w > 1 && (mixed(a) || mixed(b)) { w /= 2; continue; }
                let v = match (&x, &y) {
                    (Val::U, v) | (v, Val::U) => v.clone(),
                    _ => {
                        if let (Val::C(p), Val::C(q)) = (&x, &y) { if w == 8 && (Self::is_ptr_like(*p) || Self::is_ptr_like(*q)) { return None; } }
                        // narrow to the differing bytes if both are concrete and only one byte differs
                        if w > 1 {
                            let dc = (st..st + w).filter(|k| !same(*k)).count();
                            if dc == 1 { let k = (st..st + w).find(|k| !same(*k)).unwrap(); let (p, q) = (a.byte(k), b.byte(k)); let v = ite(c, p, q); o.store(k, 1, &Val::t(v)); i = k + 1; break; }
                        }
                        Val::t(ite(c, x.term((w * 8) as u16), y.term((w * 8) as u16)))
                    }
                };
                o.store(st, w, &v);
                i = st + w;
                break;
            }
        }
        Some(o)
    }
    fn try_merge(&mut self, a: &State, b: &State) -> Option<State> {
        if a.frames.len() != b.frames.len() || a.inputs.len() != b.inputs.len() || a.log.len() != b.log.len() { return None; }
        if a.mem.heap_next != b.mem.heap_next || a.mem.stack_next != b.mem.stack_next || a.mem.live != b.mem.live || a.merge_mode != b.merge_mode { return None; }
        for ((w, x), (v, y)) in a.inputs.iter().zip(b.inputs.iter()) { if w != v || !x.same(y) { return None; } }
        for (x, y) in a.frames.iter().zip(b.frames.iter()) {
            if x.f.id != y.f.id || x.blk != y.blk || x.ip != y.ip || x.stack_base != y.stack_base || x.dst != y.dst { return None; }
        }
        let hd = a.mem.heap.diff(&b.mem.heap);
        if a.merge_mode < 2 {
            for i in &hd {
                match (a.mem.heap.get(*i), b.mem.heap.get(*i)) {
                    (Some(x), Some(y)) => { if x.size != y.size || x.kind != y.kind || x.data != y.data || x.tags != y.tags { return None; } }
                    _ => return None,
                }
            }
        }
        // path conditions
        let mut p = 0;
        while p < a.pcs.len() && p < b.pcs.len() && a.pcs[p] == b.pcs[p] { p += 1; }
        let conj = |v: &[T]| v.iter().rev().fold(tru(), |acc, x| mk2(Op::And, 1, *x, acc));
        let (ca, cb) = (conj(&a.pcs[p..]), conj(&b.pcs[p..]));
        let c = ca;
        // registers
        let mut frames = a.frames.clone();
        let nf = frames.len();
        for k in 0..nf {
            let f = a.frames[k].f.clone();
            let top = k + 1 == nf;
            let (blk, ip) = (a.frames[k].blk as usize, a.frames[k].ip);
            for r in 0..f.nregs {
                let (x, y) = (&a.frames[k].regs[r], &b.frames[k].regs[r]);
                if x.same(y) { continue; }
                if top && ip == 0 {
                    let live = f.live_in[blk][r / 64] >> (r % 64) & 1 == 1 || f.blocks[blk].phis.iter().any(|p| p.0 as usize == r);
                    if !live { frames[k].regs[r] = Val::U; continue; }
                }
                let v = self.merge_val(&f.reg_ty[r], c, x, y)?;
                frames[k].regs[r] = v;
            }
        }
        let mut mem = a.mem.clone();
        for i in a.mem.stack.diff(&b.mem.stack) {
            match (a.mem.stack.get(i), b.mem.stack.get(i)) {
                (Some(x), Some(y)) => { let o = self.merge_obj(c, x, y)?; mem.stack.set(i, Some(Rc::new(o))); }
                _ => return None,
            }
        }
        for i in a.mem.glob.diff(&b.mem.glob) {
            let x = match a.mem.glob.get(i) { Some(x) => x.clone(), None => self.global_obj(i)? };
            let y = match b.mem.glob.get(i) { Some(x) => x.clone(), None => self.global_obj(i)? };
            let o = self.merge_obj(c, &x, &y)?;
            mem.glob.set(i, Some(Rc::new(o)));
        }
        if a.merge_mode >= 2 {
            for i in hd {
                match (a.mem.heap.get(i), b.mem.heap.get(i)) {
                    (Some(x), Some(y)) => { let o = self.merge_obj(c, x, y)?; mem.heap.set(i, Some(Rc::new(o))); }
                    _ => return None,
                }
            }
        }
        let mut log = vec![];
        for (x, y) in a.log.iter().zip(b.log.iter()) { log.push(self.merge_val(&Ty::Int(64), c, x, y)?); }
        let mut s = a.clone();
        s.frames = frames;
        s.mem = mem;
        s.log = log;
        s.pcs.truncate(p);
        Self::assume(&mut s, mk2(Op::Or, 1, ca, cb));
        s.steps = a.steps.max(b.steps);
        s.merges = a.merges + b.merges + 1;
        Some(s)
    }

    // ---------- one instruction ----------
    fn step(&mut self, s: &mut State) -> Step {
        s.steps += 1;
        if s.steps > self.max_steps {
            let m = s.model.clone();
            self.violation(s, &m, "limit", "no termination within the step limit");
            self.finish(s);
            return Step::End;
        }
        if s.steps & 0xfffff == 0 && Instant::now() > self.deadline { self.incomplete = Some("time budget exhausted".into()); return Step::End; }
        let fr = s.frames.last().unwrap();
        let f = fr.f.clone();
        let inst = &f.blocks[fr.blk as usize].insts[fr.ip];
        if inst.dbg != 0 { let d = inst.dbg as usize; if self.cov.len() <= d { self.cov.resize(d + 1024, false); } self.cov[d] = true; }
        match self.exec(s, &f, inst) {
            Ok(x) => x,
            Err(Halt::Stop) => { self.st.infeasible += 1; Step::End }
            Err(Halt::Refork(v)) => Step::Fork(v),
            Err(Halt::Err(e)) => {
                let bt = self.backtrace(s);
                let e = format!("{e} [{}] at {bt}", crate::demangle(&f.name));
                if self.errors.len() < 20 { let i = self.inputs_of(s, &s.model.clone()); self.failed.push((e.clone(), i)); self.errors.push(e); }
                Step::End
            }
            Err(Halt::Bad(kind, msg)) => {
                let m = s.model.clone();
                let full = format!("{kind}: {msg}");
                self.violation(s, &m, &kind, &full);
                self.finish(s);
                Step::End
            }
        }
    }

    fn set(s: &mut State, d: Option<u32>, v: Val) { if let Some(d) = d { s.frames.last_mut().unwrap().regs[d as usize] = v; } }
    fn next(s: &mut State) { s.frames.last_mut().unwrap().ip += 1; }

    fn goto(&mut self, s: &mut State, to: u32) -> R<()> {
        let fr = s.frames.last().unwrap();
        let f = fr.f.clone();
        let from = fr.blk;
        let b = &f.blocks[to as usize];
        let mut vals = vec![];
        for (d, t, inc) in &b.phis {
            let o = inc.get(&from).ok_or_else(|| Halt::Err("phi".into()))?;
            vals.push((*d, self.ev(s, t, o)?));
        }
        let fr = s.frames.last_mut().unwrap();
        for (d, v) in vals { fr.regs[d as usize] = v; }
        fr.blk = to;
        fr.ip = 0;
        if !f.loops.is_empty() {
            let l = f.loop_of[to as usize];
            let within = |mut x: u32, o: u32| { loop { if x == o { return true; } if x == NONE { return false; } x = f.loops[x as usize].1; } };
            while let Some((t, _)) = fr.iters.last() { if within(l, *t) { break; } fr.iters.pop(); }
            if l != NONE && f.loops[l as usize].0 == to {
                match fr.iters.last_mut() { Some(t) if t.0 == l => t.1 += 1, _ => fr.iters.push((l, 0)) }
            }
        }
        s.at_entry = true;
        Ok(())
    }
    /// How far two states have come: the one that is behind in the unrolled
    /// control flow is run first, so that states meet again where paths join.
    fn behind(a: &State, b: &State) -> std::cmp::Ordering {
        use std::cmp::Ordering::*;
        for (x, y) in a.frames.iter().zip(b.frames.iter()) {
            if x.f.id != y.f.id { return x.f.id.cmp(&y.f.id); }
            let mut i = 0;
            loop {
                match (x.iters.get(i), y.iters.get(i)) {
                    (Some(p), Some(q)) => {
                        if p.0 != q.0 { let h = |l: u32| x.f.rpo[x.f.loops[l as usize].0 as usize]; return h(p.0).cmp(&h(q.0)); }
                        if p.1 != q.1 { return p.1.cmp(&q.1); }
                    }
                    (Some(p), None) => { let c = x.f.rpo[x.f.loops[p.0 as usize].0 as usize].cmp(&x.f.rpo[y.blk as usize]); return if c == Equal { Greater } else { c }; }
                    (None, Some(q)) => { let c = x.f.rpo[x.blk as usize].cmp(&x.f.rpo[x.f.loops[q.0 as usize].0 as usize]); return if c == Equal { Less } else { c }; }
                    (None, None) => break,
                }
                i += 1;
            }
            if x.blk != y.blk { return x.f.rpo[x.blk as usize].cmp(&x.f.rpo[y.blk as usize]); }
            if x.ip != y.ip { return x.ip.cmp(&y.ip); }
        }
        // the deeper one is still inside a call the other has not begun
        a.frames.len().cmp(&b.frames.len())
    }

    fn binop(&mut self, b: Bin, w: u16, x: &Val, y: &Val) -> R<Val> {
        let op = match b {
            Bin::Add => Op::Add, Bin::Sub => Op::Sub, Bin::Mul => Op::Mul, Bin::UDiv => Op::UDiv, Bin::SDiv => Op::SDiv, Bin::URem => Op::URem, Bin::SRem => Op::SRem,
            Bin::Shl => Op::Shl, Bin::LShr => Op::LShr, Bin::AShr => Op::AShr, Bin::And => Op::And, Bin::Or => Op::Or, Bin::Xor => Op::Xor,
            Bin::FAdd => Op::FAdd, Bin::FSub => Op::FSub, Bin::FMul => Op::FMul, Bin::FDiv => Op::FDiv, Bin::FRem => return err("frem"),
        };
        match (x, y) {
            (Val::C(a), Val::C(b2)) => {
                if matches!(b, Bin::UDiv | Bin::SDiv | Bin::URem | Bin::SRem) && *b2 == 0 { return Err(Halt::Bad("ub".into(), "division by zero".into())); }
                Ok(Val::C(fold(op, w, w, *a, *b2, 0, 0, w)))
            }
            (Val::A(_), _) | (_, Val::A(_)) => err("vector arithmetic"),
            (Val::U, Val::U) => Ok(Val::U),
            (Val::U, _) | (_, Val::U) => {
                // undef operand: any value is allowed; keep it undefined unless masked
                match (b, x, y) { (Bin::And, _, Val::C(0)) | (Bin::And, Val::C(0), _) | (Bin::Mul, _, Val::C(0)) => Ok(Val::C(0)), _ => Ok(Val::U) }
            }
            _ => Ok(Val::t(mk2(op, w, x.term(w), y.term(w)))),
        }
    }
    fn icmp(&mut self, p: Pred, w: u16, x: &Val, y: &Val) -> R<Val> {
        if let (Val::C(a), Val::C(b)) = (x, y) {
            let (sa, sb) = (sext_c(*a, w), sext_c(*b, w));
            let r = match p { Pred::Eq => a == b, Pred::Ne => a != b, Pred::Ugt => a > b, Pred::Uge => a >= b, Pred::Ult => a < b, Pred::Ule => a <= b, Pred::Sgt => sa > sb, Pred::Sge => sa >= sb, Pred::Slt => sa < sb, Pred::Sle => sa <= sb };
            return Ok(Val::C(r as u128));
        }
        if let (Val::A(_), _) | (_, Val::A(_)) = (x, y) { return err("vector compare"); }
        if let (Val::U, _) | (_, Val::U) = (x, y) { return Ok(Val::U); }
        let (a, b) = (x.term(w), y.term(w));
        Ok(Val::t(match p {
            Pred::Eq => mk2(Op::Eq, 1, a, b), Pred::Ne => not1(mk2(Op::Eq, 1, a, b)),
            Pred::Ugt => mk2(Op::Ult, 1, b, a), Pred::Uge => mk2(Op::Ule, 1, b, a), Pred::Ult => mk2(Op::Ult, 1, a, b), Pred::Ule => mk2(Op::Ule, 1, a, b),
            Pred::Sgt => mk2(Op::Slt, 1, b, a), Pred::Sge => mk2(Op::Sle, 1, b, a), Pred::Slt => mk2(Op::Slt, 1, a, b), Pred::Sle => mk2(Op::Sle, 1, a, b),
        }))
    }
    fn fcmp(&mut self, p: &str, w: u16, x: &Val, y: &Val) -> R<Val> {
        if let (Val::U, _) | (_, Val::U) = (x, y) { return Ok(Val::U); }
        let (a, b) = (x.term(w), y.term(w));
        let lt = |a, b| mk2(Op::FLt, 1, a, b);
        let le = |a, b| mk2(Op::FLe, 1, a, b);
        let eq = |a, b| mk2(Op::FEq, 1, a, b);
        let uno = |a, b| mk2(Op::FUno, 1, a, b);
        let r = match p {
            "oeq" => eq(a, b), "olt" => lt(a, b), "ole" => le(a, b), "ogt" => lt(b, a), "oge" => le(b, a),
            "one" => { let e = eq(a, b); let u = uno(a, b); not1(mk2(Op::Or, 1, e, u)) }
            "ord" => not1(uno(a, b)), "uno" => uno(a, b),
            "ueq" => { let e = eq(a, b); let u = uno(a, b); mk2(Op::Or, 1, e, u) }
            "une" => not1(eq(a, b)),
            "ult" => not1(le(b, a)), "ule" => not1(lt(b, a)), "ugt" => not1(le(a, b)), "uge" => not1(lt(a, b)),
            "true" => tru(), "false" => fls(),
            _ => return err(format!("fcmp {p}")),
        };
        Ok(Val::t(r))
    }

    fn exec(&mut self, s: &mut State, f: &Rc<Func>, inst: &Inst) -> R<Step> {
        match &inst.k {
            K::Bin(b, ty, x, y) => {
                let (xv, yv) = (self.ev(s, ty, x)?, self.ev(s, ty, y)?);
                let w = ty.width();
                if w == 0 { return err("vector op"); }
                let yv = match (b, yv) { (Bin::UDiv | Bin::URem | Bin::SDiv | Bin::SRem, Val::S(t)) => Val::t(self.simp(s, t)), (_, v) => v };
                if let (Bin::UDiv | Bin::URem | Bin::SDiv | Bin::SRem, Val::S(t)) = (b, &yv) {
                    let z = mk2(Op::Eq, 1, *t, cst(w, 0));
                    if let Some(m) = self.sat(s, z)? { self.violation(s, &m, "ub", "ub: division by zero"); Self::assume(s, not1(z)); match self.sat(s, not1(z))? { Some(m) => s.model = m, None => return Err(Halt::Stop) } }
                }
                let v = self.binop(*b, w, &xv, &yv)?;
                Self::set(s, inst.dst, v);
                Self::next(s);
            }
            K::Icmp(p, ty, x, y) => {
                let (xv, yv) = (self.ev(s, ty, x)?, self.ev(s, ty, y)?);
                if ty.width() == 0 { return err("vector icmp"); }
                let v = self.icmp(*p, ty.width(), &xv, &yv)?;
                Self::set(s, inst.dst, v);
                Self::next(s);
            }
            K::Fcmp(p, ty, x, y) => {
                let (xv, yv) = (self.ev(s, ty, x)?, self.ev(s, ty, y)?);
                let v = self.fcmp(p, ty.width(), &xv, &yv)?;
                Self::set(s, inst.dst, v);
                Self::next(s);
            }
            K::FNeg(ty, x) => {
                let xv = self.ev(s, ty, x)?;
                let w = ty.width();
                let v = self.binop(Bin::Xor, w, &xv, &Val::C(1u128 << (w - 1)))?;
                Self::set(s, inst.dst, v);
                Self::next(s);
            }
            K::Cast(c, st, dt, x) => {
                let xv = self.ev(s, st, x)?;
                let (sw, dw) = (st.width(), dt.width());
                if sw > 128 || dw > 128 { return err("integers wider than 128 bits"); }
                if sw == 0 || dw == 0 { if *c == Cast::BitCast && st == dt { Self::set(s, inst.dst, xv); Self::next(s); return Ok(Step::Cont); } return err("vector cast"); }
                let v = match (&xv, c) {
                    (Val::U, _) => Val::U,
                    (Val::A(_), _) => return err("vector cast"),
                    (Val::C(k), Cast::Trunc | Cast::ZExt | Cast::PtrToInt | Cast::IntToPtr | Cast::BitCast) => Val::C(k & mask(dw)),
                    (Val::C(k), Cast::SExt) => Val::C(sext_c(*k, sw) as u128 & mask(dw)),
                    (Val::C(k), _) => { let op = match c { Cast::U2F => Op::U2F, Cast::S2F => Op::S2F, Cast::F2U => Op::F2U, Cast::F2S => Op::F2S, Cast::FExt => Op::FExt, _ => Op::FTrunc }; Val::C(fold(op, dw, sw, *k, 0, 0, 0, 0)) }
                    (Val::S(t), _) => Val::t(match c {
                        Cast::Trunc => extract(*t, 0, dw),
                        Cast::ZExt => zext(*t, dw),
                        Cast::SExt => sext(*t, dw),
                        Cast::PtrToInt | Cast::IntToPtr | Cast::BitCast => if dw < sw { extract(*t, 0, dw) } else { zext(*t, dw) },
                        Cast::U2F => mk1(Op::U2F, dw, *t, 0),
                        Cast::S2F => mk1(Op::S2F, dw, *t, 0),
                        Cast::F2U => mk1(Op::F2U, dw, *t, 0),
                        Cast::F2S => mk1(Op::F2S, dw, *t, 0),
                        Cast::FExt => mk1(Op::FExt, dw, *t, 0),
                        Cast::FTrunc => mk1(Op::FTrunc, dw, *t, 0),
                    }),
                };
                Self::set(s, inst.dst, v);
                Self::next(s);
            }
            K::Load(ty, p) => {
                let pv = self.ev(s, &Ty::Ptr, p)?;
                let reg = if let Opnd::Reg(r) = p { Some(*r) } else { None };
                let v = self.load_ty(s, ty, &pv, reg)?;
                Self::set(s, inst.dst, v);
                Self::next(s);
            }
            K::Store(ty, v, p) => {
                let vv = self.ev(s, ty, v)?;
                let pv = self.ev(s, &Ty::Ptr, p)?;
                let reg = if let Opnd::Reg(r) = p { Some(*r) } else { None };
                self.store_ty(s, ty, &vv, &pv, reg)?;
                Self::next(s);
            }
            K::Gep(b, off, idx) => {
                let bv = self.ev(s, &Ty::Ptr, b)?;
                let mut acc = match &bv { Val::C(a) => Val::C((*a as u64).wrapping_add(*off as u64) as u128), Val::S(t) => Val::t(mk2(Op::Add, 64, *t, cst(64, *off as u64 as u128))), Val::U => Val::U, _ => return err("vector gep") };
                for (o, scale, w) in idx {
                    let iv = self.ev(s, &Ty::Int(*w), o)?;
                    acc = match (&acc, &iv) {
                        (Val::U, _) | (_, Val::U) => Val::U,
                        (Val::C(a), Val::C(i)) => Val::C((*a as u64).wrapping_add((sext_c(*i, *w) as i64 as u64).wrapping_mul(*scale)) as u128),
                        _ => {
                            let mut it = iv.term(*w);
                            if *w < 64 { it = sext(it, 64); } else if *w > 64 { it = extract(it, 0, 64); }
                            let d = mk2(Op::Mul, 64, it, cst(64, *scale as u128));
                            Val::t(mk2(Op::Add, 64, acc.term(64), d))
                        }
                    };
                }
                Self::set(s, inst.dst, acc);
                Self::next(s);
            }
            K::Select(ty, c, x, y) => {
                let cv = self.ev(s, &Ty::Int(1), c)?;
                let (xv, yv) = (self.ev(s, ty, x)?, self.ev(s, ty, y)?);
                let v = match &cv {
                    Val::C(k) => if k & 1 == 1 { xv } else { yv },
                    Val::U => yv,
                    Val::S(t) => {
                        let t = *t;
                        let k = if matches!(ty, Ty::Int(1)) { self.known(s, t) } else { self.settled(s, t)? };
                        if let Some(k) = k { let v = if k { xv } else { yv }; let v = match v { Val::S(x) => Val::t(self.simp(s, x)), v => v }; Self::set(s, inst.dst, v); Self::next(s); return Ok(Step::Cont); }
                        if *ty == Ty::Ptr && !xv.same(&yv) {
                            // keep pointers concrete: fork
                            let (a, b) = self.decide(s, t)?;
                            let mut out = vec![];
                            if let Some(m) = a { let mut n = s.clone(); Self::assume(&mut n, t); n.model = m; Self::set(&mut n, inst.dst, xv.clone()); Self::next(&mut n); out.push(n); }
                            if let Some(m) = b { let mut n = s.clone(); Self::assume(&mut n, not1(t)); n.model = m; Self::set(&mut n, inst.dst, yv.clone()); Self::next(&mut n); out.push(n); }
                            if out.len() == 1 { *s = out.pop().unwrap(); return Ok(Step::Cont); }
                            self.st.forks += 1;
                            return Ok(Step::Fork(out));
                        }
                        match self.sel_val(ty, t, &xv, &yv) { Some(v) => v, None => {
                            let (a, b) = self.decide(s, t)?;
                            let mut out = vec![];
                            if let Some(m) = a { let mut n = s.clone(); Self::assume(&mut n, t); n.model = m; Self::set(&mut n, inst.dst, xv.clone()); Self::next(&mut n); out.push(n); }
                            if let Some(m) = b { let mut n = s.clone(); Self::assume(&mut n, not1(t)); n.model = m; Self::set(&mut n, inst.dst, yv.clone()); Self::next(&mut n); out.push(n); }
                            if out.len() == 1 { *s = out.pop().unwrap(); return Ok(Step::Cont); }
                            self.st.forks += 1;
                            return Ok(Step::Fork(out));
                        } }
                    }
                    _ => return err("vector select"),
                };
                Self::set(s, inst.dst, v);
                Self::next(s);
            }
            K::Alloca(ty, n) => {
                let nv = self.ev(s, &Ty::Int(64), n)?;
                let k = self.conc(s, &nv, n, "alloca size")? as u64;
                let (a, _) = s.mem.alloc_stack(ty.size() * k, 16);
                Self::set(s, inst.dst, Val::C(a as u128));
                Self::next(s);
            }
            K::ExtractValue(a, ty, ix) => {
                let mut v = self.ev(s, ty, a)?;
                for i in ix { v = match v { Val::A(x) => x[*i as usize].clone(), Val::U => Val::U, _ => return err("extractvalue") }; }
                Self::set(s, inst.dst, v);
                Self::next(s);
            }
            K::InsertValue(a, ty, v, ix) => {
                let av = self.ev(s, ty, a)?;
                let vv = self.ev(s, &Ty::Other, v)?;
                if ix.len() != 1 { return err("nested insertvalue"); }
                let n = match ty { Ty::Struct(f, _) => f.len(), Ty::Arr(n, _) => *n as usize, _ => return err("insertvalue") };
                let mut x = match av { Val::A(x) => (*x).clone(), _ => vec![Val::U; n] };
                x[ix[0] as usize] = vv;
                Self::set(s, inst.dst, Val::A(Rc::new(x)));
                Self::next(s);
            }
            K::Freeze(ty, a) => {
                let v = match self.ev(s, ty, a)? { Val::U => Val::C(0), v => v };
                Self::set(s, inst.dst, v);
                Self::next(s);
            }
            K::Br(b) => self.goto(s, *b)?,
            K::CondBr(c, x, y) => {
                let cv = self.ev(s, &Ty::Int(1), c)?;
                match cv {
                    Val::C(k) => { let t = if k & 1 == 1 { *x } else { *y }; self.goto(s, t)? }
                    Val::U => return Err(Halt::Bad("ub".into(), "branch on an uninitialised value".into())),
                    Val::S(t) => {
                        let (a, b) = self.decide(s, t)?;
                        match (a, b) {
                            (Some(_), None) => self.goto(s, *x)?,
                            (None, Some(_)) => self.goto(s, *y)?,
                            (Some(ma), Some(mb)) => {
                                self.st.forks += 1;
                                let mut n = s.clone();
                                Self::assume(&mut n, t);
                                n.model = ma;
                                let mut q = s.clone();
                                Self::assume(&mut q, not1(t));
                                q.model = mb;
                                self.goto(&mut n, *x)?;
                                self.goto(&mut q, *y)?;
                                return Ok(Step::Fork(vec![n, q]));
                            }
                            _ => return Err(Halt::Stop),
                        }
                    }
                    _ => return err("condbr"),
                }
            }
            K::Switch(ty, v, d, cs) => {
                let vv = self.ev(s, ty, v)?;
                match vv {
                    Val::C(k) => { let t = cs.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(*d); self.goto(s, t)? }
                    Val::U => return Err(Halt::Bad("ub".into(), "switch on an uninitialised value".into())),
                    Val::S(t) => {
                        let w = ty.width();
                        let mut out = vec![];
                        let mut none = tru();
                        // group targets
                        let mut groups: Vec<(u32, T)> = vec![];
                        for (k, b) in cs {
                            let e = mk2(Op::Eq, 1, t, cst(w, *k));
                            none = mk2(Op::And, 1, none, not1(e));
                            if let Some(g) = groups.iter_mut().find(|g| g.0 == *b) { g.1 = mk2(Op::Or, 1, g.1, e); } else { groups.push((*b, e)); }
                        }
                        if let Some(g) = groups.iter_mut().find(|g| g.0 == *d) { g.1 = mk2(Op::Or, 1, g.1, none); } else { groups.push((*d, none)); }
                        for (b, c) in groups {
                            if let Some(m) = self.sat(s, c)? {
                                let mut n = s.clone();
                                Self::assume(&mut n, c);
                                n.model = m;
                                self.goto(&mut n, b)?;
                                out.push(n);
                            }
                        }
                        if out.len() == 1 { *s = out.pop().unwrap(); return Ok(Step::Cont); }
                        self.st.forks += 1;
                        return Ok(Step::Fork(out));
                    }
                    _ => return err("switch"),
                }
            }
            K::Ret(ty, v) => { let vv = self.ev(s, ty, v)?; return self.ret(s, Some(vv)); }
            K::RetVoid => return self.ret(s, None),
            K::Unreachable => return Err(Halt::Bad("ub".into(), format!("reached an unreachable point in {}", crate::demangle(&f.name)))),
            K::Nop => Self::next(s),
            K::AtomicRmw(op, ty, p, v) => {
                let pv = self.ev(s, &Ty::Ptr, p)?;
                let vv = self.ev(s, ty, v)?;
                let old = self.load_ty(s, ty, &pv, None)?;
                let w = ty.width();
                let nv = match op.as_str() { "xchg" => vv, "add" => self.binop(Bin::Add, w, &old, &vv)?, "sub" => self.binop(Bin::Sub, w, &old, &vv)?, "or" => self.binop(Bin::Or, w, &old, &vv)?, "and" => self.binop(Bin::And, w, &old, &vv)?, _ => return err(format!("atomicrmw {op}")) };
                self.store_ty(s, ty, &nv, &pv, None)?;
                Self::set(s, inst.dst, old);
                Self::next(s);
            }
            K::CmpXchg(ty, p, c, n) => {
                let pv = self.ev(s, &Ty::Ptr, p)?;
                let (cv, nv) = (self.ev(s, ty, c)?, self.ev(s, ty, n)?);
                let old = self.load_ty(s, ty, &pv, None)?;
                let e = self.icmp(Pred::Eq, ty.width(), &old, &cv)?;
                match &e { Val::C(1) => self.store_ty(s, ty, &nv, &pv, None)?, Val::C(_) => {} _ => return err("symbolic cmpxchg") }
                Self::set(s, inst.dst, Val::A(Rc::new(vec![old, e])));
                Self::next(s);
            }
            K::Call(rt, callee, args, normal) => return self.call(s, inst, rt, callee, args, *normal),
            K::Unsupported(m) => return err(format!("unsupported: {m}")),
        }
        Ok(Step::Cont)
    }
    fn sel_val(&self, ty: &Ty, c: T, a: &Val, b: &Val) -> Option<Val> {
        if a.same(b) { return Some(a.clone()); }
        match (a, b) {
            (Val::U, x) | (x, Val::U) => Some(x.clone()),
            (Val::A(x), Val::A(y)) => {
                let mut o = vec![];
                for i in 0..x.len() { let (t, _) = match ty { Ty::Struct(..) | Ty::Arr(..) => ty.elem(i as u64), _ => return None }; if t == Ty::Ptr && !x[i].same(&y[i]) { return None; } o.push(self.sel_val(&t, c, &x[i], &y[i])?); }
                Some(Val::A(Rc::new(o)))
            }
            (Val::A(_), _) | (_, Val::A(_)) => None,
            _ => { let w = ty.width(); if w == 0 { return None; } Some(Val::t(ite(c, a.term(w), b.term(w)))) }
        }
    }
    fn ret(&mut self, s: &mut State, v: Option<Val>) -> R<Step> {
        let fr = s.frames.pop().unwrap();
        s.mem.pop_stack(fr.stack_base);
        if s.frames.is_empty() { self.finish(s); return Ok(Step::End); }
        if let (Some(_), Some(v)) = (fr.dst, v) { Self::set(s, fr.dst, v); }
        match fr.normal { Some(b) => self.goto(s, b)?, None => Self::next(s) }
        Ok(Step::Cont)
    }

    fn done(&mut self, s: &mut State, inst: &Inst, normal: Option<u32>, v: Option<Val>) -> R<Step> {
        if let Some(v) = v { Self::set(s, inst.dst, v); }
        match normal { Some(b) => self.goto(s, b)?, None => Self::next(s) }
        Ok(Step::Cont)
    }

    fn call(&mut self, s: &mut State, inst: &Inst, rt: &Ty, callee: &Callee, args: &[(Ty, Opnd)], normal: Option<u32>) -> R<Step> {
        let g = match callee {
            Callee::Direct(g) => *g,
            Callee::Indirect(o) => {
                let v = self.ev(s, &Ty::Ptr, o)?;
                let a = self.conc(s, &v, o, "call target")? as u64;
                if a < CODE_BASE || (a - CODE_BASE) % 16 != 0 || (a - CODE_BASE) / 16 >= self.m.globals.len() as u64 { return Err(Halt::Bad("memory".into(), format!("call through invalid pointer {a:#x}"))); }
                ((a - CODE_BASE) / 16) as u32
            }
            Callee::Asm => return err("inline asm"),
        };
        let kind = self.m.globals[g as usize].kind;
        let name = std::mem::take(&mut self.m.globals[g as usize].name);
        let r = self.call2(s, inst, rt, g, kind, &name, args, normal);
        self.m.globals[g as usize].name = name;
        r
    }

    fn call2(&mut self, s: &mut State, inst: &Inst, rt: &Ty, g: u32, kind: GK, name: &str, args: &[(Ty, Opnd)], normal: Option<u32>) -> R<Step> {
        if let Some(k) = panic_kind(name) {
            let mut msg = format!("{k} in {}", crate::demangle(name).rsplit("::").next().unwrap_or(""));
            // the last pointer argument of most panic entry points is a &Location
            for (t, o) in args.iter().rev() {
                if *t != Ty::Ptr { continue; }
                if let Ok(Val::C(p)) = self.ev(s, t, o) {
                    let p = p as u64;
                    if let (Some(fp), Some(fl), Some(lc)) = (self.read_u64(s, p), self.read_u64(s, p + 8), self.read_u64(s, p + 16)) {
                        if fl < 300 { let fname = self.read_str(s, fp, fl); if fname.ends_with(".rs") || fname.ends_with(".rs\0") { msg = format!("{msg} at {}:{}", fname.trim_end_matches('\0'), lc as u32); break; } }
                    }
                }
            }
            let short = msg.split(" at ").next().unwrap_or("").to_string();
            let _ = short;
            return Err(Halt::Bad("panic".into(), msg));
        }
        if name.starts_with("llvm.") { return self.intrinsic(s, inst, rt, name, args, normal); }
        if name.starts_with("sym_") { return self.harness_call(s, inst, name, args, normal); }
        if kind == GK::Decl || matches!(name, "malloc" | "free" | "calloc" | "realloc" | "posix_memalign" | "memcmp" | "bcmp" | "strlen" | "memcpy" | "memmove" | "memset") || name.contains("___rust_alloc") || name.contains("___rust_dealloc") || name.contains("___rust_realloc") || name.contains("___rust_no_alloc_shim") {
            return self.external(s, inst, name, args, normal);
        }
        let f = self.m.func(g).map_err(Halt::Err)?;
        self.called.insert(g);
        if s.frames.len() > 400 { return err("call depth"); }
        let mut regs = vec![Val::U; f.nregs];
        for (i, (r, _)) in f.params.iter().enumerate() {
            if let Some((t, o)) = args.get(i) { regs[*r as usize] = self.ev(s, t, o)?; }
        }
        let stack_base = s.mem.stack_next;
        s.frames.push(Frame { f, regs, blk: 0, ip: 0, stack_base, dst: inst.dst, normal, iters: vec![] });
        Ok(Step::Cont)
    }

    fn arg(&mut self, s: &State, args: &[(Ty, Opnd)], i: usize) -> R<Val> { let (t, o) = &args[i]; self.ev(s, t, o) }
    fn carg(&mut self, s: &State, args: &[(Ty, Opnd)], i: usize, what: &str) -> R<u128> { let v = self.arg(s, args, i)?; self.conc(s, &v, &args[i].1, what) }

    fn fork_bool(&mut self, s: &State, c: T) -> R<Option<bool>> {
        // None: a refork is required
        match self.decide(s, c)? { (Some(_), None) => Ok(Some(true)), (None, Some(_)) => Ok(Some(false)), (Some(ma), Some(mb)) => {
            let mut a = s.clone(); Self::assume(&mut a, c); a.model = ma;
            let mut b = s.clone(); Self::assume(&mut b, not1(c)); b.model = mb;
            self.st.forks += 1;
            Err(Halt::Refork(vec![a, b]))
        } _ => Err(Halt::Stop) }
    }

    /// With parameter `vast` (GiB), allocations above the limit and up to that size succeed;
    /// only their start can be used, so a path filling one ends as a counterexample candidate.
    fn vast(&self) -> u64 { self.params.get("vast").copied().unwrap_or(0) << 30 }
    /// Size argument of an allocation. Ok(None): the allocation fails.
    fn alloc_size(&mut self, s: &State, args: &[(Ty, Opnd)], i: usize) -> R<Option<u64>> {
        match self.arg(s, args, i)? {
            Val::C(n) => Ok(if n as u64 > self.alloc_limit { if n as u64 <= self.vast() { Some(VAST_BACKING) } else { None } } else { Some(n as u64) }),
            Val::S(t) => {
                let big = mk2(Op::Ult, 1, cst(64, self.alloc_limit as u128), t);
                match self.fork_bool(s, big)? { Some(true) if self.vast() > 0 => { let fits = mk2(Op::Ule, 1, t, cst(64, self.vast() as u128)); Ok(if self.fork_bool(s, fits)? == Some(true) { Some(VAST_BACKING) } else { None }) } Some(true) => Ok(None), _ => { let n = self.carg(s, args, i, "allocation size")?; Ok(Some(n as u64)) } }
            }
            _ => err("allocation size"),
        }
    }
    /// A heap object is released or resized with the size it was allocated with.
    fn sized(&mut self, s: &State, p: u64, n: u64) -> R<()> {
        if let Region::Heap(i) = region(p) {
            if let Some(o) = s.mem.heap.get(i) {
                if o.kind != Kind::Freed && o.base == p && o.size != n && self.vast() == 0 { return Err(Halt::Bad("memory".into(), format!("released with size {} instead of {}", n, o.size))); }
            }
        }
        Ok(())
    }
    fn free(&mut self, s: &mut State, p: u64) -> R<()> {
        match region(p) {
            Region::Heap(i) => {
                let Some(o) = s.mem.heap.get(i).cloned() else { return Err(Halt::Bad("memory".into(), "free of an invalid pointer".into())) };
                if o.kind == Kind::Freed { return Err(Halt::Bad("memory".into(), "double free".into())); }
                if o.base != p { return Err(Halt::Bad("memory".into(), "free of an interior pointer".into())); }
                s.mem.live -= 1;
                s.mem.live_bytes -= o.size;
                let mut d = Obj::new(o.base, 0, Kind::Freed, 1);
                d.size = o.size;
                s.mem.heap.set(i, Some(Rc::new(d)));
                Ok(())
            }
            _ => Err(Halt::Bad("memory".into(), "free of a non-heap pointer".into())),
        }
    }

    fn external(&mut self, s: &mut State, inst: &Inst, name: &str, args: &[(Ty, Opnd)], normal: Option<u32>) -> R<Step> {
        let short = name;
        match short {
            "malloc" | "calloc" => {
                let n = if short == "calloc" {
                    let a = self.carg(s, args, 0, "calloc count")? as u64;
                    if a == 1 { self.alloc_size(s, args, 1)? } else { let b = self.carg(s, args, 1, "calloc size")? as u64; a.checked_mul(b).filter(|n| *n <= self.alloc_limit) }
                } else { self.alloc_size(s, args, 0)? };
                let v = match n { None => 0, Some(n) => { let p = s.mem.alloc_heap(n, 16); if short == "calloc" { self.obj_mut(s, p).unwrap().zero(); } p } };
                self.done(s, inst, normal, Some(Val::C(v as u128)))
            }
            "posix_memalign" => {
                let pp = self.carg(s, args, 0, "pointer")?;
                let n = self.alloc_size(s, args, 2)?;
                match n {
                    None => self.done(s, inst, normal, Some(Val::C(12))),
                    Some(n) => { let p = s.mem.alloc_heap(n, 16); self.store_ty(s, &Ty::Ptr, &Val::C(p as u128), &Val::C(pp), None)?; self.done(s, inst, normal, Some(Val::C(0))) }
                }
            }
            "free" => {
                let p = self.carg(s, args, 0, "pointer")? as u64;
                if p != 0 { self.free(s, p)?; }
                self.done(s, inst, normal, None)
            }
            "realloc" => {
                let p = self.carg(s, args, 0, "pointer")? as u64;
                let n = self.alloc_size(s, args, 1)?;
                match n {
                    None => self.done(s, inst, normal, Some(Val::C(0))),
                    Some(n) => {
                        let q = s.mem.alloc_heap(n, 16);
                        if p != 0 {
                            let o = self.check_access(s, p, 0, false)?;
                            let k = o.size.min(n);
                            drop(o);
                            self.memcpy(s, q, p, k)?;
                            self.free(s, p)?;
                        }
                        self.done(s, inst, normal, Some(Val::C(q as u128)))
                    }
                }
            }
            "memcmp" | "bcmp" => {
                let a = self.carg(s, args, 0, "memcmp pointer")? as u64;
                let b = self.carg(s, args, 1, "memcmp pointer")? as u64;
                let n = self.carg(s, args, 2, "memcmp length")? as u64;
                if n == 0 { return self.done(s, inst, normal, Some(Val::C(0))); }
                let x = self.check_access(s, a, n, false)?;
                let y = self.check_access(s, b, n, false)?;
                let (ao, bo) = ((a - x.base) as usize, (b - y.base) as usize);
                let mut r = cst(32, 0);
                if short == "bcmp" {
                    let mut e = tru();
                    for i in 0..n as usize { e = mk2(Op::And, 1, mk2(Op::Eq, 1, x.byte(ao + i), y.byte(bo + i)), e); }
                    r = zext(not1(e), 32);
                } else {
                    for i in (0..n as usize).rev() {
                        let (p, q) = (x.byte(ao + i), y.byte(bo + i));
                        let lt = mk2(Op::Ult, 1, p, q);
                        let eq = mk2(Op::Eq, 1, p, q);
                        let d = ite(lt, cst(32, u32::MAX as u128), cst(32, 1));
                        r = ite(eq, r, d);
                    }
                }
                self.done(s, inst, normal, Some(Val::t(r)))
            }
            "strlen" => {
                let mut p = self.carg(s, args, 0, "strlen")? as u64;
                let st = p;
                loop { let o = self.check_access(s, p, 1, false)?; match o.load((p - o.base) as usize, 1) { Val::C(0) => break, Val::C(_) => p += 1, Val::S(t) => { drop(o); let z = mk2(Op::Eq, 1, t, cst(8, 0)); match self.fork_bool(s, z)? { Some(true) => break, _ => p += 1 } } _ => return err("strlen of uninitialised memory") } }
                self.done(s, inst, normal, Some(Val::C((p - st) as u128)))
            }
            "memcpy" | "memmove" => {
                let d = self.carg(s, args, 0, "memcpy")? as u64;
                let p = self.carg(s, args, 1, "memcpy")? as u64;
                let n = self.carg(s, args, 2, "memcpy length")? as u64;
                self.memcpy(s, d, p, n)?;
                self.done(s, inst, normal, Some(Val::C(d as u128)))
            }
            "memset" => {
                let d = self.carg(s, args, 0, "memset")? as u64;
                let v = self.arg(s, args, 1)?;
                let n = self.carg(s, args, 2, "memset length")? as u64;
                self.memset(s, d, &v, n, 32)?;
                self.done(s, inst, normal, Some(Val::C(d as u128)))
            }
            _ if name.contains("___rust_no_alloc_shim") => self.done(s, inst, normal, None),
            _ if name.contains("___rust_alloc") => {
                let n = self.alloc_size(s, args, 0)?;
                let v = match n { None => 0, Some(n) => { let p = s.mem.alloc_heap(n, 16); if name.contains("alloc_zeroed") { self.obj_mut(s, p).unwrap().zero(); } p } };
                self.done(s, inst, normal, Some(Val::C(v as u128)))
            }
            _ if name.contains("___rust_dealloc") => {
                let p = self.carg(s, args, 0, "pointer")? as u64;
                let n = self.carg(s, args, 1, "size")? as u64;
                self.sized(s, p, n)?;
                self.free(s, p)?;
                self.done(s, inst, normal, None)
            }
            _ if name.contains("___rust_realloc") => {
                let p = self.carg(s, args, 0, "pointer")? as u64;
                let old = self.carg(s, args, 1, "size")? as u64;
                self.sized(s, p, old)?;
                match self.alloc_size(s, args, 3)? {
                    None => self.done(s, inst, normal, Some(Val::C(0))),
                    Some(n) => {
                        let q = s.mem.alloc_heap(n, 16);
                        let o = self.check_access(s, p, 0, false)?;
                        let k = o.size.min(n);
                        drop(o);
                        self.memcpy(s, q, p, k)?;
                        self.free(s, p)?;
                        self.done(s, inst, normal, Some(Val::C(q as u128)))
                    }
                }
            }
            _ => err(format!("call to external function {}", crate::demangle(name))),
        }
    }
    fn memset(&mut self, s: &mut State, d: u64, v: &Val, n: u64, w: u16) -> R<()> {
        if n == 0 { return Ok(()); }
        let o = self.check_access(s, d, n, true)?;
        let off = (d - o.base) as usize;
        drop(o);
        let _ = w;
        let v = match v { Val::S(t) => Val::t(extract(*t, 0, 8)), Val::C(c) => Val::C(c & 255), v => v.clone() };
        let o = self.obj_mut(s, d).unwrap();
        if off == 0 && n == o.size { if let Val::C(0) = v { o.zero(); return Ok(()); } }
        for i in 0..n as usize { o.store(off + i, 1, &v); }
        Ok(())
    }

    fn intrinsic(&mut self, s: &mut State, inst: &Inst, rt: &Ty, name: &str, args: &[(Ty, Opnd)], normal: Option<u32>) -> R<Step> {
        let n2 = &name[5..];
        let base = n2;
        let starts = |p: &str| base.starts_with(p);
        if starts("lifetime.") || starts("experimental.noalias") || starts("dbg.") || starts("prefetch") || starts("donothing") || starts("sideeffect") || starts("invariant.") || starts("x86.sse2.pause") || starts("assume") {
            return self.done(s, inst, normal, if inst.dst.is_some() { Some(Val::C(0)) } else { None });
        }
        if starts("memcpy.") || starts("memmove.") {
            let d = self.carg(s, args, 0, "memcpy destination")? as u64;
            let p = self.carg(s, args, 1, "memcpy source")? as u64;
            let n = self.carg(s, args, 2, "memcpy length")? as u64;
            self.memcpy(s, d, p, n)?;
            return self.done(s, inst, normal, None);
        }
        if starts("memset.") {
            let d = self.carg(s, args, 0, "memset")? as u64;
            let v = self.arg(s, args, 1)?;
            let n = self.carg(s, args, 2, "memset length")? as u64;
            self.memset(s, d, &v, n, 8)?;
            return self.done(s, inst, normal, None);
        }
        let w = args.get(0).map(|a| a.0.width()).unwrap_or(0);
        if args.iter().any(|a| matches!(a.0, Ty::Vec(..))) { return err(format!("vector intrinsic {name}")); }
        if starts("is.constant") { return self.done(s, inst, normal, Some(Val::C(0))); }
        let a = if !args.is_empty() { self.arg(s, args, 0)? } else { Val::U };
        if starts("expect.") || starts("threadlocal.address") || starts("launder.") || starts("strip.") || starts("ptrmask") || starts("annotation") || starts("ssa.copy") { return self.done(s, inst, normal, Some(a)); }
        if starts("objectsize") { return self.done(s, inst, normal, Some(Val::C(u64::MAX as u128))); }
        let b = if args.len() > 1 { self.arg(s, args, 1)? } else { Val::U };
        if let Val::U = a { if !starts("load.relative") { return self.done(s, inst, normal, Some(match rt { Ty::Struct(f, _) => Val::A(Rc::new(vec![Val::U; f.len()])), _ => Val::U })); } }
        let x = || a.term(w);
        let y = || b.term(w);
        let v: Val = if base.contains(".with.overflow.") {
            let (x, y) = (x(), y());
            let (r, o) = if starts("uadd") { let r = mk2(Op::Add, w, x, y); let o = match is_const(y) { Some(k) => mk2(Op::Ult, 1, cst(w, mask(w) - k), x), None => mk2(Op::Ult, 1, r, x) }; (r, o) }
            else if starts("usub") { (mk2(Op::Sub, w, x, y), mk2(Op::Ult, 1, x, y)) }
            else if starts("umul") {
                let r = mk2(Op::Mul, w, x, y);
                let o = match (is_const(x), is_const(y)) {
                    (Some(0), _) | (_, Some(0)) => fls(),
                    (Some(k), _) => mk2(Op::Ult, 1, cst(w, mask(w) / k), y),
                    (_, Some(k)) => mk2(Op::Ult, 1, cst(w, mask(w) / k), x),
                    _ => { if w > 64 { return err("wide symbolic multiplication"); } let p = mk2(Op::Mul, 2 * w, zext(x, 2 * w), zext(y, 2 * w)); not1(mk2(Op::Eq, 1, extract(p, w, w), cst(w, 0))) }
                };
                (r, o)
            } else {
                // signed: compute in double width
                if w > 64 { match (is_const(x), is_const(y)) { (Some(a), Some(b)) => { let (r, o) = match &base[..4] { "sadd" => (a as i128).overflowing_add(b as i128), "ssub" => (a as i128).overflowing_sub(b as i128), _ => (a as i128).overflowing_mul(b as i128) }; return self.done(s, inst, normal, Some(Val::A(Rc::new(vec![Val::C(r as u128), Val::C(o as u128)])))); } _ => {} } }
                if w > 64 && !starts("smul") {
                    let add = starts("sadd");
                    let r = mk2(if add { Op::Add } else { Op::Sub }, w, x, y);
                    // overflow: operands agree in sign (addition) or differ (subtraction), and the result's sign is not x's
                    let (sx, sy, sr) = (extract(x, w - 1, 1), extract(y, w - 1, 1), extract(r, w - 1, 1));
                    let like = mk2(Op::Eq, 1, sx, sy);
                    let o = mk2(Op::And, 1, if add { like } else { not1(like) }, not1(mk2(Op::Eq, 1, sx, sr)));
                    return self.done(s, inst, normal, Some(Val::A(Rc::new(vec![Val::t(r), Val::t(o)]))));
                }
                if w > 64 { return err("wide signed multiplication"); }
                let (p, q) = (sext(x, 2 * w), sext(y, 2 * w));
                let op = if starts("sadd") { Op::Add } else if starts("ssub") { Op::Sub } else { Op::Mul };
                let f = mk2(op, 2 * w, p, q);
                let r = extract(f, 0, w);
                (r, not1(mk2(Op::Eq, 1, sext(r, 2 * w), f)))
            };
            Val::A(Rc::new(vec![Val::t(r), Val::t(o)]))
        } else if starts("umax.") { let (x, y) = (x(), y()); let c = mk2(Op::Ult, 1, x, y); match self.settled(s, c)? { Some(true) => Val::t(self.simp(s, y)), Some(false) => Val::t(self.simp(s, x)), None => Val::t(ite(c, y, x)) } }
        else if starts("umin.") { let (x, y) = (x(), y()); let c = mk2(Op::Ult, 1, x, y); match self.settled(s, c)? { Some(true) => Val::t(self.simp(s, x)), Some(false) => Val::t(self.simp(s, y)), None => Val::t(ite(c, x, y)) } }
        else if starts("smax.") { let (x, y) = (x(), y()); Val::t(ite(mk2(Op::Slt, 1, x, y), y, x)) }
        else if starts("smin.") { let (x, y) = (x(), y()); Val::t(ite(mk2(Op::Slt, 1, x, y), x, y)) }
        else if starts("abs.") { let x = x(); let ng = mk2(Op::Slt, 1, x, cst(w, 0)); Val::t(ite(ng, mk2(Op::Sub, w, cst(w, 0), x), x)) }
        else if starts("uadd.sat") { let (x, y) = (x(), y()); let r = mk2(Op::Add, w, x, y); Val::t(ite(mk2(Op::Ult, 1, r, x), cst(w, mask(w)), r)) }
        else if starts("usub.sat") { let (x, y) = (x(), y()); Val::t(ite(mk2(Op::Ult, 1, x, y), cst(w, 0), mk2(Op::Sub, w, x, y))) }
        else if starts("sadd.sat") || starts("ssub.sat") {
            let (p, q) = (sext(x(), 2 * w), sext(y(), 2 * w));
            let f = mk2(if starts("sadd") { Op::Add } else { Op::Sub }, 2 * w, p, q);
            let hi = cst(2 * w, mask(w - 1));
            let lo = cst(2 * w, !mask(w - 1));
            let t = ite(mk2(Op::Slt, 1, hi, f), hi, ite(mk2(Op::Slt, 1, f, lo), lo, f));
            Val::t(extract(t, 0, w))
        }
        else if starts("ucmp.") || starts("scmp.") {
            let (x, y) = (x(), y());
            let op = if starts("ucmp.") { Op::Ult } else { Op::Slt };
            let rw = rt.width();
            Val::t(ite(mk2(op, 1, x, y), cst(rw, mask(rw)), ite(mk2(Op::Eq, 1, x, y), cst(rw, 0), cst(rw, 1))))
        }
        else if starts("bswap.") {
            let x = x();
            let n = w / 8;
            let mut r: Option<T> = None;
            for i in 0..n { let e = extract(x, i * 8, 8); r = Some(match r { None => e, Some(h) => concat(h, e) }); }
            Val::t(r.unwrap())
        }
        else if starts("bitreverse.") {
            let x = x();
            let mut r: Option<T> = None;
            for i in 0..w { let e = extract(x, i, 1); r = Some(match r { None => e, Some(h) => concat(h, e) }); }
            Val::t(r.unwrap())
        }
        else if starts("ctpop.") {
            match &a { Val::C(k) => Val::C(k.count_ones() as u128), _ => {
                // balanced sum of the bits
                let x = x();
                let mut v: Vec<T> = (0..w).map(|i| zext(extract(x, i, 1), 8)).collect();
                while v.len() > 1 { let mut n = vec![]; for c in v.chunks(2) { n.push(if c.len() == 2 { mk2(Op::Add, 8, c[0], c[1]) } else { c[0] }); } v = n; }
                Val::t(if w > 8 { zext(v[0], w) } else { extract(v[0], 0, w) })
            } }
        }
        else if starts("ctlz.") || starts("cttz.") {
            match &a { Val::C(k) => Val::C(if starts("ctlz.") { if *k == 0 { w as u128 } else { (k.leading_zeros() as u128) - (128 - w as u128) } } else if *k == 0 { w as u128 } else { k.trailing_zeros() as u128 }), _ => {
                let x = x();
                let mut r = cst(w, w as u128);
                if starts("ctlz.") { for i in 0..w { r = ite(extract(x, i, 1), cst(w, (w - 1 - i) as u128), r); } }
                else { for i in (0..w).rev() { r = ite(extract(x, i, 1), cst(w, i as u128), r); } }
                Val::t(r)
            } }
        }
        else if starts("fshl.") || starts("fshr.") {
            let c = self.arg(s, args, 2)?;
            let k = match c { Val::C(k) => (k % w as u128) as u16, _ => {
                let (x, y, c) = (x(), y(), c.term(w));
                let m = mk2(Op::URem, w, c, cst(w, w as u128));
                let inv = mk2(Op::Sub, w, cst(w, w as u128), m);
                let r = if starts("fshl.") { mk2(Op::Or, w, mk2(Op::Shl, w, x, m), mk2(Op::LShr, w, y, inv)) } else { mk2(Op::Or, w, mk2(Op::Shl, w, x, inv), mk2(Op::LShr, w, y, m)) };
                return self.done(s, inst, normal, Some(Val::t(r)));
            } };
            let (x, y) = (x(), y());
            let k = if starts("fshl.") { k } else { (w - k) % w };
            let t = if k == 0 { if starts("fshl.") { x } else { y } } else { concat(extract(x, 0, w - k), extract(y, w - k, k)) };
            Val::t(t)
        }
        else if starts("fptoui.sat") || starts("fptosi.sat") {
            let dw = rt.width();
            let signed = starts("fptosi");
            match &a { Val::C(k) => {
                let f = if w == 64 { f64::from_bits(*k as u64) } else { f32::from_bits(*k as u32) as f64 };
                let r = if signed { let lo = -(2f64.powi(dw as i32 - 1)); if f.is_nan() { 0 } else if f <= lo { (1u128 << (dw - 1)) & mask(dw) } else if f >= -lo { mask(dw - 1) } else { f as i128 as u128 & mask(dw) } }
                else if f.is_nan() || f <= 0.0 { 0 } else if f >= 2f64.powi(dw as i32) { mask(dw) } else { f as u128 & mask(dw) };
                Val::C(r)
            } _ => {
                if w != 64 { return err("symbolic f32 to int"); }
                let x = x();
                let fc = |v: f64| cst(64, v.to_bits() as u128);
                let nan = mk2(Op::FUno, 1, x, x);
                if signed {
                    let lim = 2f64.powi(dw as i32 - 1);
                    let conv = mk1(Op::F2S, dw, x, 0);
                    let r = ite(mk2(Op::FLe, 1, fc(lim), x), cst(dw, mask(dw - 1)), conv);
                    let r = ite(mk2(Op::FLe, 1, x, fc(-lim)), cst(dw, 1u128 << (dw - 1)), r);
                    Val::t(ite(nan, cst(dw, 0), r))
                } else {
                    let lim = 2f64.powi(dw as i32);
                    let conv = mk1(Op::F2U, dw, x, 0);
                    let r = ite(mk2(Op::FLe, 1, fc(lim), x), cst(dw, mask(dw)), conv);
                    let r = ite(mk2(Op::FLe, 1, x, fc(0.0)), cst(dw, 0), r);
                    Val::t(ite(nan, cst(dw, 0), r))
                }
            } }
        }
        else if starts("fabs.") { self.binop(Bin::And, w, &a, &Val::C(mask(w - 1)))? }
        else if starts("copysign.") { let h = self.binop(Bin::And, w, &a, &Val::C(mask(w - 1)))?; let g = self.binop(Bin::And, w, &b, &Val::C(1u128 << (w - 1)))?; self.binop(Bin::Or, w, &h, &g)? }
        else if starts("floor.") { Val::t(mk1(Op::FRoundInt, w, x(), 0)) }
        else if starts("ceil.") { Val::t(mk1(Op::FRoundInt, w, x(), 1)) }
        else if starts("trunc.") { Val::t(mk1(Op::FRoundInt, w, x(), 2)) }
        else if starts("rint.") || starts("nearbyint.") || starts("roundeven.") { Val::t(mk1(Op::FRoundInt, w, x(), 3)) }
        else if starts("round.") { Val::t(mk1(Op::FRoundInt, w, x(), 4)) }
        else if starts("sqrt.") { Val::t(mk1(Op::FSqrt, w, x(), 0)) }
        else if starts("minnum.") || starts("maxnum.") || starts("minimumnum.") || starts("maximumnum.") {
            let (x, y) = (x(), y());
            let lt = if starts("min") { mk2(Op::FLt, 1, x, y) } else { mk2(Op::FLt, 1, y, x) };
            let nx = mk2(Op::FUno, 1, x, x);
            let ny = mk2(Op::FUno, 1, y, y);
            Val::t(ite(nx, y, ite(ny, x, ite(lt, x, y))))
        }
        else if starts("load.relative") {
            let p = self.carg(s, args, 0, "load.relative")? as u64;
            let o = self.carg(s, args, 1, "load.relative")? as u64;
            let v = self.load_ty(s, &Ty::Int(32), &Val::C(p.wrapping_add(o) as u128), None)?;
            match v { Val::C(k) => Val::C(p.wrapping_add(sext_c(k, 32) as i64 as u64) as u128), _ => return err("load.relative") }
        }
        else { return err(format!("intrinsic {name}")); };
        self.done(s, inst, normal, Some(v))
    }

    // ---------- harness interface ----------
    fn harness_call(&mut self, s: &mut State, inst: &Inst, name: &str, args: &[(Ty, Opnd)], normal: Option<u32>) -> R<Step> {
        let fresh = |s: &mut State, w: u16| { let t = var(w, s.inputs.len() as u32); s.inputs.push((w, Val::S(t))); t };
        match name {
            "sym_u64" => { let t = fresh(s, 64); self.done(s, inst, normal, Some(Val::S(t))) }
            "sym_u32" => { let t = fresh(s, 32); self.done(s, inst, normal, Some(Val::S(t))) }
            "sym_u8" => { let t = fresh(s, 8); self.done(s, inst, normal, Some(Val::S(t))) }
            "sym_u1" => { let t = fresh(s, 1); self.done(s, inst, normal, Some(Val::S(t))) }
            "sym_choose" => {
                let n = self.carg(s, args, 0, "choose")? as u64;
                let mut out = vec![];
                for k in 0..n {
                    let mut c = s.clone();
                    c.inputs.push((64, Val::C(k as u128)));
                    self.done(&mut c, inst, normal, Some(Val::C(k as u128)))?;
                    out.push(c);
                }
                if out.len() == 1 { *s = out.pop().unwrap(); return Ok(Step::Cont); }
                self.st.forks += 1;
                Ok(Step::Split(out))
            }
            "sym_param" => {
                let p = self.carg(s, args, 0, "param")? as u64;
                let n = self.carg(s, args, 1, "param")? as u64;
                let d = self.carg(s, args, 2, "param")? as u64;
                let k = self.read_str(s, p, n);
                let v = self.params.get(&k).copied().unwrap_or(d);
                self.done(s, inst, normal, Some(Val::C(v as u128)))
            }
            "sym_concretize" => {
                let v = self.carg(s, args, 0, "concretize")?;
                self.done(s, inst, normal, Some(Val::C(v)))
            }
            "sym_assume" => {
                let c = self.arg(s, args, 0)?;
                match c {
                    Val::C(k) => { if k & 1 == 0 { return Err(Halt::Stop); } }
                    Val::S(t) => {
                        let t = extract(t, 0, 1);
                        let t = self.simp(s, t);
                        match self.sat(s, t)? { Some(m) => { Self::assume(s, t); s.model = m; } None => return Err(Halt::Stop) }
                    }
                    _ => return err("assume"),
                }
                self.done(s, inst, normal, None)
            }
            "sym_check" => {
                let p = self.carg(s, args, 1, "msg")? as u64;
                let n = self.carg(s, args, 2, "msg")? as u64;
                let msg = self.read_str(s, p, n);
                let c = self.arg(s, args, 0)?;
                *self.checks.entry(msg.clone()).or_insert(0) += 1;
                match c {
                    Val::C(k) => {
                        self.st.checks_trivial += 1;
                        if k & 1 == 0 { let m = s.model.clone(); self.violation(s, &m, "check", &msg); return Err(Halt::Stop); }
                    }
                    Val::S(t) => {
                        let t = extract(t, 0, 1);
                        self.st.checks_solver += 1;
                        let nt = not1(t);
                        if let Some(m) = self.sat(s, nt)? {
                            self.violation(s, &m, "check", &msg);
                            match self.sat(s, t)? { Some(m) => { Self::assume(s, t); s.model = m; } None => return Err(Halt::Stop) }
                        }
                    }
                    Val::U => { let m = s.model.clone(); self.violation(s, &m, "check", &format!("{msg} (uninitialised)")); return Err(Halt::Stop); }
                    _ => return err("check"),
                }
                self.done(s, inst, normal, None)
            }
            "sym_cover" => {
                let p = self.carg(s, args, 0, "msg")? as u64;
                let n = self.carg(s, args, 1, "msg")? as u64;
                let msg = self.read_str(s, p, n);
                *self.covers.entry(msg).or_insert(0) += 1;
                self.done(s, inst, normal, None)
            }
            "sym_log" => { let v = self.arg(s, args, 0)?; s.log.push(v); self.done(s, inst, normal, None) }
            "sym_merge" => { let v = self.carg(s, args, 0, "merge mode")?; s.merge_mode = v as u8; self.done(s, inst, normal, None) }
            "sym_live" => { let v = s.mem.live; self.done(s, inst, normal, Some(Val::C(v as u128))) }
            "sym_native" => self.done(s, inst, normal, Some(Val::C(0))),
            _ => err(format!("harness call {name}")),
        }
    }
}
