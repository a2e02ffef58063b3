//! Reference model: what the properties say, written from their text alone.
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq, Default)]
pub struct G {
    pub und: bool,
    pub dim: u64,
    pub e: BTreeSet<(u64, u64)>,
}
impl G {
    pub fn new(und: bool) -> G {
        G { und, ..G::default() }
    }
    pub fn add(&mut self, a: u64, b: u64) {
        if a == u64::MAX || b == u64::MAX {
            return;
        }
        self.dim = self.dim.max(a + 1).max(b + 1);
        self.e.insert((a, b));
        if self.und {
            self.e.insert((b, a));
        }
    }
    pub fn del(&mut self, a: u64, b: u64) {
        self.e.remove(&(a, b));
        if self.und {
            self.e.remove(&(b, a));
        }
    }
    pub fn vert(&mut self, v: u64, to: &[u64]) {
        for t in to {
            self.add(v, *t);
        }
        if v != u64::MAX {
            self.dim = self.dim.max(v + 1);
        }
    }
    pub fn out(&self, v: u64) -> Vec<u64> {
        self.e.range((v, 0)..=(v, u64::MAX)).map(|p| p.1).collect()
    }
    pub fn inn(&self, v: u64) -> Vec<u64> {
        self.e.iter().filter(|p| p.1 == v).map(|p| p.0).collect()
    }
    pub fn symmetric(&self) -> bool {
        self.e.iter().all(|p| self.e.contains(&(p.1, p.0)))
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        for r in 0..self.dim {
            s.push_str("[ ");
            for c in 0..self.dim {
                s.push(if self.e.contains(&(c, r)) { '1' } else { '0' });
                s.push_str(if c + 1 < self.dim { ", " } else { " " });
            }
            s.push(']');
            if r + 1 < self.dim {
                s.push_str("\r\n");
            }
        }
        s
    }
    /// number of edges per block
    pub fn blocks(&self, bd: u64) -> BTreeMap<(u64, u64), u64> {
        let mut m = BTreeMap::new();
        for (a, b) in &self.e {
            *m.entry((a / bd, b / bd)).or_insert(0) += 1;
        }
        m
    }
    pub fn bytes(&self) -> Vec<u8> {
        let mut v = vec![];
        v.extend(0x7ae71ffdu32.to_be_bytes());
        v.extend(1u32.to_be_bytes());
        v.extend(self.dim.to_be_bytes());
        v.extend((self.e.len() as u64).to_be_bytes());
        v.push(self.und as u8);
        v.push(0);
        for (a, b) in &self.e {
            v.extend(a.to_be_bytes());
            v.extend(b.to_be_bytes());
        }
        v
    }
}
pub fn ceil_div(a: u64, b: u64) -> u64 {
    a / b + (a % b != 0) as u64
}
fn u32_at(b: &[u8], i: usize) -> u32 {
    u32::from_be_bytes(b[i..i + 4].try_into().unwrap())
}
fn u64_at(b: &[u8], i: usize) -> u64 {
    u64::from_be_bytes(b[i..i + 8].try_into().unwrap())
}
/// the graph some bytes describe, if they describe one
pub fn decode(b: &[u8]) -> Option<G> {
    if b.len() < 26 || u32_at(b, 0) != 0x7ae71ffd || u32_at(b, 4) != 1 || b[24] > 1 || b[25] != 0 {
        return None;
    }
    let (dim, n) = (u64_at(b, 8), u64_at(b, 16));
    if b.len() as u128 != 26 + 16 * n as u128 {
        return None;
    }
    let mut g = G::new(b[24] == 1);
    for i in 0..n as usize {
        let (c, r) = (u64_at(b, 26 + 16 * i), u64_at(b, 34 + 16 * i));
        if c >= dim || r >= dim {
            return None;
        }
        g.add(c, r);
    }
    if g.e.len() as u64 != n {
        return None;
    }
    g.dim = dim;
    Some(g)
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct C {
    pub und: bool,
    pub n: u64,
    pub level: u8,
    pub b: BTreeMap<(u64, u64), u64>,
}
impl C {
    pub fn of(g: &G, level: u8) -> C {
        let level = level.clamp(1, 64);
        let mut c = C { und: g.und, n: g.dim, level, b: BTreeMap::new() };
        for (a, b) in &g.e {
            *c.b.entry((a / 8, b / 8)).or_insert(0) |= 1u64 << (8 * (b % 8) + a % 8);
        }
        c.b.retain(|_, v| v.count_ones() >= level as u32);
        c
    }
    pub fn mdim(&self) -> u64 {
        ceil_div(self.n, 8).max(1)
    }
    pub fn edges(&self) -> u64 {
        self.b.values().map(|v| v.count_ones() as u64).sum()
    }
    pub fn has(&self, a: u64, b: u64) -> bool {
        self.b.get(&(a / 8, b / 8)).is_some_and(|v| v >> (8 * (b % 8) + a % 8) & 1 == 1)
    }
    pub fn graph(&self) -> G {
        let mut g = G::new(false);
        for ((c, r), v) in &self.b {
            for i in 0..64 {
                if v >> i & 1 == 1 {
                    g.add(c * 8 + i % 8, r * 8 + i / 8);
                }
            }
        }
        g.und = self.und;
        g.dim = self.n;
        g
    }
    pub fn bytes(&self) -> Vec<u8> {
        let mut v = vec![];
        v.extend(0x71ff7aedu32.to_be_bytes());
        v.extend(2u32.to_be_bytes());
        v.extend(self.mdim().to_be_bytes());
        v.extend((self.b.len() as u64).to_be_bytes());
        v.extend(self.edges().to_be_bytes());
        v.extend(self.n.to_be_bytes());
        v.push(self.und as u8);
        v.push(self.level);
        for ((c, r), e) in &self.b {
            v.extend(e.to_be_bytes());
            v.extend(c.to_be_bytes());
            v.extend(r.to_be_bytes());
        }
        v
    }
}
pub fn cdecode(b: &[u8]) -> Option<C> {
    if b.len() < 42 || u32_at(b, 0) != 0x71ff7aed || u32_at(b, 4) != 2 || b[40] > 1 || b[41] < 1 || b[41] > 64 {
        return None;
    }
    let (dim, n, edges) = (u64_at(b, 8), u64_at(b, 16), u64_at(b, 24));
    let mut c = C { und: b[40] == 1, n: u64_at(b, 32), level: b[41], b: BTreeMap::new() };
    if dim != c.mdim() || b.len() as u128 != 42 + 24 * n as u128 {
        return None;
    }
    for i in 0..n as usize {
        let (e, col, row) = (u64_at(b, 42 + 24 * i), u64_at(b, 50 + 24 * i), u64_at(b, 58 + 24 * i));
        if e == 0 || col >= dim || row >= dim {
            return None;
        }
        for i in 0..64u128 {
            if e >> i & 1 == 1 && (col as u128 * 8 + i % 8 >= c.n as u128 || row as u128 * 8 + i / 8 >= c.n as u128) {
                return None;
            }
        }
        if c.b.insert((col, row), e).is_some() {
            return None;
        }
    }
    if c.edges() != edges || (c.und && !c.graph().symmetric()) {
        return None;
    }
    Some(c)
}
