// Reference model shared by the harnesses: a set of ordered pairs kept as a
// list of (from, to, present) facts, where `present` may be symbolic.
#[derive(Clone, Default)]
pub struct Spec { pub und: bool, pub e: Vec<(u64, u64, bool)>, pub n: u64 }
#[allow(dead_code)]
impl Spec {
    pub fn new(und: bool) -> Spec { Spec { und, e: Vec::new(), n: 0 } }
    #[inline(always)]
    pub fn grow(&mut self, v: u64, ok: bool) { let w = v.wrapping_add(1); self.n = if ok & (w > self.n) { w } else { self.n }; }
    #[inline(always)]
    pub fn add(&mut self, a: u64, b: u64) {
        let ok = (a != u64::MAX) & (b != u64::MAX);
        self.set(a, b, ok);
        if self.und { self.set(b, a, ok); }
        self.grow(a, ok);
        self.grow(b, ok);
    }
    // Later facts about a pair override earlier ones, so that at most one
    // fact about each pair is `present`.
    #[inline(always)]
    fn set(&mut self, a: u64, b: u64, ok: bool) {
        for f in self.e.iter_mut() { f.2 &= !((f.0 == a) & (f.1 == b)); }
        self.e.push((a, b, ok));
    }
    #[inline(always)]
    pub fn del(&mut self, a: u64, b: u64) {
        for f in self.e.iter_mut() { f.2 &= !(((f.0 == a) & (f.1 == b)) | (self.und & (f.0 == b) & (f.1 == a))); }
    }
    #[inline(always)]
    pub fn has(&self, x: u64, y: u64) -> bool { let mut r = false; for f in &self.e { r |= f.2 & (f.0 == x) & (f.1 == y); } r }
    #[inline(always)]
    pub fn edges(&self) -> u64 { let mut r = 0; for f in &self.e { r += f.2 as u64; } r }
    #[inline(always)]
    pub fn out_degree(&self, v: u64) -> u64 { let mut r = 0; for f in &self.e { r += (f.2 & (f.0 == v)) as u64; } r }
    #[inline(always)]
    pub fn in_degree(&self, v: u64) -> u64 { let mut r = 0; for f in &self.e { r += (f.2 & (f.1 == v)) as u64; } r }
}
