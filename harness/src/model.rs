//! Reference models. Deliberately naive: ordered sets and exact integer arithmetic.
use std::collections::{BTreeMap, BTreeSet};

/// A graph as a set of (from, to) pairs and a vertex count.
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Model {
    pub und: bool,
    pub n: u64,
    pub e: BTreeSet<(u64, u64)>,
}

impl Model {
    pub fn new(und: bool) -> Self {
        Model { und, n: 0, e: BTreeSet::new() }
    }
    fn touch(&mut self, v: u64) {
        assert!(v != u64::MAX, "outside the model's domain");
        self.n = self.n.max(v + 1);
    }
    pub fn add_edge(&mut self, a: u64, b: u64) {
        self.touch(a);
        self.touch(b);
        self.e.insert((a, b));
        if self.und {
            self.e.insert((b, a));
        }
    }
    pub fn delete_edge(&mut self, a: u64, b: u64) {
        self.e.remove(&(a, b));
        if self.und {
            self.e.remove(&(b, a));
        }
    }
    pub fn add_vertex(&mut self, v: u64, to: Option<&[u64]>) {
        self.touch(v);
        for &t in to.unwrap_or(&[]) {
            self.add_edge(v, t);
        }
    }
    pub fn ec(&self) -> u64 {
        self.e.len() as u64
    }
    pub fn out(&self, v: u64) -> Vec<u64> {
        self.e.range((v, 0)..=(v, u64::MAX)).map(|&(_, b)| b).collect()
    }
    pub fn ins(&self, v: u64) -> Vec<u64> {
        if self.und {
            // By the symmetry of the set; cross-checked by `is_symmetric`.
            return self.out(v);
        }
        self.e.iter().filter(|&&(_, b)| b == v).map(|&(a, _)| a).collect()
    }
    pub fn is_symmetric(&self) -> bool {
        self.e.iter().all(|&(a, b)| self.e.contains(&(b, a)))
    }

    /// Number of edges in each b x b block that has any.
    pub fn block_counts(&self, b: u64) -> BTreeMap<(u64, u64), u64> {
        let mut m = BTreeMap::new();
        for &(x, y) in &self.e {
            *m.entry((x / b, y / b)).or_insert(0) += 1;
        }
        m
    }

    pub fn compress(&self, level: u8) -> CModel {
        let level = level.clamp(1, 64);
        let mut bits: BTreeMap<(u64, u64), u64> = BTreeMap::new();
        for &(x, y) in &self.e {
            *bits.entry((x / 8, y / 8)).or_insert(0) |= 1u64 << ((y % 8) * 8 + x % 8);
        }
        bits.retain(|_, v| v.count_ones() >= u32::from(level));
        CModel { und: self.und, n: self.n, level, bits }
    }

    pub fn matrix_string(&self) -> String {
        let cell = |c: u64, r: u64| if self.e.contains(&(c, r)) { "1" } else { "0" }.to_string();
        render(self.n, cell)
    }

    /// Version 1 bytes with the edges in the given order (positions into the sorted set).
    pub fn bytes(&self, order: &[usize]) -> Vec<u8> {
        let v: Vec<_> = self.e.iter().copied().collect();
        let mut out = graph_header(0x7ae7_1ffd, 1, self.n, self.ec(), u8::from(self.und), 0);
        assert_eq!(order.len(), v.len());
        for &i in order {
            out.extend(v[i].0.to_be_bytes());
            out.extend(v[i].1.to_be_bytes());
        }
        out
    }
}

pub fn graph_header(magic: u32, version: u32, n: u64, ec: u64, und: u8, weighted: u8) -> Vec<u8> {
    let mut out = Vec::new();
    out.extend(magic.to_be_bytes());
    out.extend(version.to_be_bytes());
    out.extend(n.to_be_bytes());
    out.extend(ec.to_be_bytes());
    out.push(und);
    out.push(weighted);
    out
}

/// "[ a, b ]" lines; `cell(col, row)` is already padded.
pub fn render(n: u64, cell: impl Fn(u64, u64) -> String) -> String {
    (0..n)
        .map(|r| {
            let cells: Vec<_> = (0..n).map(|c| cell(c, r)).collect();
            format!("[ {} ]", cells.join(", "))
        })
        .collect::<Vec<_>>()
        .join("\r\n")
}

/// A compressed graph as a map from block coordinates to block bits.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct CModel {
    pub und: bool,
    pub n: u64,
    pub level: u8,
    pub bits: BTreeMap<(u64, u64), u64>,
}

impl CModel {
    pub fn ec(&self) -> u64 {
        self.bits.values().map(|b| u64::from(b.count_ones())).sum()
    }
    pub fn dim(&self) -> u64 {
        (self.n / 8 + u64::from(self.n % 8 != 0)).max(1)
    }
    pub fn has(&self, a: u64, b: u64) -> bool {
        self.bits
            .get(&(a / 8, b / 8))
            .is_some_and(|v| v >> ((b % 8) * 8 + a % 8) & 1 == 1)
    }
    pub fn edges(&self) -> BTreeSet<(u64, u64)> {
        let mut e = BTreeSet::new();
        for (&(c, r), &v) in &self.bits {
            for i in 0..64 {
                if v >> i & 1 == 1 {
                    e.insert((c * 8 + i % 8, r * 8 + i / 8));
                }
            }
        }
        e
    }
    pub fn decompress(&self) -> Model {
        Model { und: self.und, n: self.n, e: self.edges() }
    }
    pub fn matrix_string(&self) -> String {
        let w = self.bits.values().map(|v| v.to_string().len()).max().unwrap_or(1);
        render(self.dim(), |c, r| {
            let v = self.bits.get(&(c, r)).copied().unwrap_or(0);
            format!("{v:>w$}")
        })
    }
    pub fn bytes(&self, order: &[usize]) -> Vec<u8> {
        let v: Vec<_> = self.bits.iter().map(|(k, b)| (*b, k.0, k.1)).collect();
        assert_eq!(order.len(), v.len());
        let mut out = compressed_header(&CHeader {
            magic: 0x71ff_7aed,
            version: 2,
            dim: self.dim(),
            entries: v.len() as u64,
            edges: self.ec(),
            n: self.n,
            und: u8::from(self.und),
            level: self.level,
        });
        for &i in order {
            out.extend(v[i].0.to_be_bytes());
            out.extend(v[i].1.to_be_bytes());
            out.extend(v[i].2.to_be_bytes());
        }
        out
    }
}

pub struct CHeader {
    pub magic: u32,
    pub version: u32,
    pub dim: u64,
    pub entries: u64,
    pub edges: u64,
    pub n: u64,
    pub und: u8,
    pub level: u8,
}

pub fn compressed_header(h: &CHeader) -> Vec<u8> {
    let mut out = Vec::new();
    out.extend(h.magic.to_be_bytes());
    out.extend(h.version.to_be_bytes());
    for x in [h.dim, h.entries, h.edges, h.n] {
        out.extend(x.to_be_bytes());
    }
    out.push(h.und);
    out.push(h.level);
    out
}

/// Verdict of a reference decoder.
#[derive(Debug, Clone, PartialEq)]
pub enum Verdict<T> {
    Reject(&'static str),
    Accept(T),
    /// The bytes list edges or blocks redundantly in a way the documentation does not
    /// settle: rejecting and accepting as this object are both fine.
    Either(T),
}

struct Rd<'a>(&'a [u8], usize);
impl Rd<'_> {
    fn u8(&mut self) -> u8 {
        self.1 += 1;
        self.0[self.1 - 1]
    }
    fn u32(&mut self) -> u32 {
        (0..4).fold(0, |a, _| a << 8 | u32::from(self.u8()))
    }
    fn u64(&mut self) -> u64 {
        (0..8).fold(0, |a, _| a << 8 | u64::from(self.u8()))
    }
}

pub fn decode_graph(b: &[u8]) -> Verdict<Model> {
    use Verdict::*;
    if b.len() < 26 {
        return Reject("short header");
    }
    let mut r = Rd(b, 0);
    if r.u32() != 0x7ae7_1ffd {
        return Reject("magic");
    }
    if r.u32() != 1 {
        return Reject("version");
    }
    let (n, ec, und, w) = (r.u64(), r.u64(), r.u8(), r.u8());
    if und > 1 {
        return Reject("direction flag");
    }
    if w != 0 {
        return Reject("weight flag");
    }
    if b.len() as u128 != 26 + 16 * u128::from(ec) {
        return Reject("length");
    }
    let mut m = Model { und: und == 1, n, e: BTreeSet::new() };
    let mut listed = BTreeSet::new();
    let mut dup = false;
    for _ in 0..ec {
        let (c, d) = (r.u64(), r.u64());
        if c >= n || d >= n {
            return Reject("edge outside vertex count");
        }
        dup |= !listed.insert((c, d));
        m.e.insert((c, d));
        if m.und {
            m.e.insert((d, c));
        }
    }
    if m.ec() != ec {
        return Reject("edge count");
    }
    if dup || listed != m.e {
        return Either(m);
    }
    Accept(m)
}

pub fn decode_compressed(b: &[u8]) -> Verdict<CModel> {
    use Verdict::*;
    if b.len() < 42 {
        return Reject("short header");
    }
    let mut r = Rd(b, 0);
    if r.u32() != 0x71ff_7aed {
        return Reject("magic");
    }
    if r.u32() != 2 {
        return Reject("version");
    }
    let (dim, entries, ec, n) = (r.u64(), r.u64(), r.u64(), r.u64());
    let (und, level) = (r.u8(), r.u8());
    if und > 1 {
        return Reject("direction flag");
    }
    if !(1..=64).contains(&level) {
        return Reject("level");
    }
    let mut m = CModel { und: und == 1, n, level, bits: BTreeMap::new() };
    if dim != m.dim() {
        return Reject("dimension");
    }
    if b.len() as u128 != 42 + 24 * u128::from(entries) {
        return Reject("length");
    }
    for _ in 0..entries {
        let (v, c, d) = (r.u64(), r.u64(), r.u64());
        if v == 0 {
            return Reject("zero block");
        }
        if c >= dim || d >= dim {
            return Reject("block outside dimension");
        }
        for i in 0..64u64 {
            if v >> i & 1 == 1 {
                let x = u128::from(c) * 8 + u128::from(i % 8);
                let y = u128::from(d) * 8 + u128::from(i / 8);
                if x >= u128::from(n) || y >= u128::from(n) {
                    return Reject("bit outside vertex count");
                }
            }
        }
        if m.bits.insert((c, d), v).is_some() {
            return Reject("duplicate block");
        }
    }
    if m.ec() != ec {
        return Reject("edge count");
    }
    if m.und && !m.decompress().is_symmetric() {
        return Reject("asymmetric");
    }
    Accept(m)
}
