//! Generators. Vertex IDs cluster around the values where the code changes behaviour
//! (block borders, powers of two, the top of the range) and repeat, so that operations in a
//! history collide; blocks cover every population from 0 to 64.
use crate::model::Model;
use graphrox::Graph;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// IDs up to u64::MAX - 1 (vertex counts stay representable).
pub fn any_id() -> BoxedStrategy<u64> {
    prop_oneof![
        6 => 0u64..24,
        4 => (0u64..40, 0u64..3).prop_map(|(k, d)| (k * 8 + d).saturating_sub(1)),
        2 => 0u64..400,
        4 => (3u32..64, 0u64..5).prop_map(|(k, d)| ((1u64 << k).saturating_add(d)).saturating_sub(2)),
        2 => (0u64..20).prop_map(|d| u64::MAX - 1 - d),
        2 => any::<u64>().prop_map(|v| v.min(u64::MAX - 1)),
    ]
    .boxed()
}

/// Any 64-bit value including u64::MAX.
pub fn extreme_u64() -> BoxedStrategy<u64> {
    prop_oneof![
        8 => any_id(),
        2 => Just(u64::MAX),
        1 => any::<u64>(),
    ]
    .boxed()
}

/// A short list of IDs that a case draws from by index.
pub fn palette() -> BoxedStrategy<Vec<u64>> {
    prop_oneof![
        4 => vec(0u64..12, 1..10),
        3 => vec(0u64..40, 2..14),
        4 => vec(any_id(), 1..12),
        2 => (any_id(), vec(0u64..20, 1..10))
            .prop_map(|(b, v)| v.into_iter().map(|d| b.saturating_add(d).min(u64::MAX - 1)).collect()),
        // IDs that agree in their low or high bits: catches truncation and aliasing.
        1 => (0u64..6, vec(0u32..63, 2..8))
            .prop_map(|(l, v)| v.into_iter().map(|k| (1u64 << k).wrapping_add(l)).collect()),
    ]
    .boxed()
}

fn splitmix(s: &mut u64) -> u64 {
    *s = s.wrapping_add(0x9e37_79b9_7f4a_7c15);
    let mut z = *s;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

/// A permutation of 0..n as a pure function of `seed`.
pub fn permutation(n: usize, mut seed: u64) -> Vec<usize> {
    let mut v: Vec<usize> = (0..n).collect();
    for i in (1..n).rev() {
        v.swap(i, (splitmix(&mut seed) % (i as u64 + 1)) as usize);
    }
    v
}

/// 64 block bits with exactly `pop` ones, spread as a pure function of `seed`.
pub fn bits_with_pop(pop: u32, mut seed: u64) -> u64 {
    let mut order: Vec<u32> = (0..64).collect();
    for i in (1..64usize).rev() {
        order.swap(i, (splitmix(&mut seed) % (i as u64 + 1)) as usize);
    }
    order[..pop as usize].iter().fold(0, |a, &b| a | 1 << b)
}

pub fn block_bits() -> BoxedStrategy<u64> {
    prop_oneof![
        8 => (1u32..=64, any::<u64>()).prop_map(|(p, s)| bits_with_pop(p, s)),
        2 => (0u32..64).prop_map(|b| 1u64 << b),
        1 => (0u32..64).prop_map(|b| !(1u64 << b)),
        2 => Just(u64::MAX),
        1 => (1u32..=64).prop_map(|p| if p == 64 { u64::MAX } else { (1u64 << p) - 1 }),
        1 => any::<u64>(),
        1 => (0usize..PATTERNS.len(), 0u32..8, any::<bool>()).prop_map(|(i, k, rest)| {
            let p = match i {
                0 => PATTERNS[0] << (8 * k),
                1 => PATTERNS[1] << k,
                _ => PATTERNS[i],
            };
            if rest { !p } else { p }
        }),
        1 => any::<u64>().prop_map(|s| permutation(8, s).into_iter().enumerate().fold(0, |b, (r, c)| b | 1 << (8 * r + c))),
    ]
    .boxed()
}

/// A row, a column, the diagonals, triangles with and without the diagonal, the frame, chequers, quarters, halves.
const PATTERNS: [u64; 13] = [
    0xff,
    0x0101_0101_0101_0101,
    0x8040_2010_0804_0201,
    0x0102_0408_1020_4080,
    0xff7f_3f1f_0f07_0301,
    0xfefc_f8f0_e0c0_8000,
    0xff81_8181_8181_81ff,
    0x55aa_55aa_55aa_55aa,
    0x0000_0000_0f0f_0f0f,
    0xf0f0_f0f0_0000_0000,
    0xffff_ffff_0000_0000,
    0xf0f0_f0f0_f0f0_f0f0,
    0x8100_0000_0000_0081,
];

/// Block coordinates whose whole block lies below u64::MAX.
pub fn block_coord() -> BoxedStrategy<u64> {
    prop_oneof![
        8 => 0u64..4,
        3 => 0u64..12,
        1 => (1u32..61, 0u64..3).prop_map(|(k, d)| (1u64 << k).saturating_add(d).saturating_sub(1).min((1 << 61) - 2)),
        1 => Just((1u64 << 61) - 2),
    ]
    .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum GOp {
    Edge(u64, u64),
    Del(u64, u64),
    Vertex(u64),
    VertexTo(u64, Vec<u64>),
    /// Add every edge of the block at block coordinates (c, r).
    Block(u64, u64, u64),
    /// Remove the edges of these bits of the block.
    DelBlock(u64, u64, u64),
    /// Edges from a hub to k vertices, `stride` apart (or from those to the hub).
    Star {
        hub: u64,
        base: u64,
        k: u64,
        out: bool,
        #[serde(default = "one")]
        stride: u64,
    },
    /// A vertex added with k others, `stride` apart, and some more.
    List { hub: u64, base: u64, k: u64, stride: u64, more: Vec<u64> },
    /// All pairs of k consecutive vertices.
    Full { base: u64, k: u64 },
    /// Deletes the edges of such a star, all but `keep`.
    Thin { hub: u64, base: u64, k: u64, out: bool, stride: u64, keep: u64, order: u8 },
    /// An edge added and deleted in turn, n calls in all.
    Often { a: u64, b: u64, n: u32 },
    /// n edges scattered over so many columns and rows, whose IDs are `stride` apart.
    Scatter { n: u64, cols: u64, rows: u64, stride: u64, seed: u64 },
    /// n blocks scattered over so many columns and rows of blocks, filled to about pop / 64.
    Grid { n: u64, side: u64, pop: u8, seed: u64 },
}

/// A number of two to the power `low` up to, but not, two to the power `high`: small ones as likely as large.
pub fn about(low: u32, high: u32) -> BoxedStrategy<u64> {
    (low..high).prop_flat_map(|e| 1u64 << e..2 << e).boxed()
}

fn scattered(n: u64, cols: u64, rows: u64, stride: u64, seed: u64) -> impl Iterator<Item = (u64, u64)> {
    let mut s = seed;
    let id = move |h: u64, of: u64| (h % of).saturating_mul(stride).min(u64::MAX - 1);
    (0..n).map(move |_| {
        let h = splitmix(&mut s);
        (id(h >> 32, cols), id(h & 0xffff_ffff, rows))
    })
}

/// Blocks as (column, row, bits); the same one may come twice.
pub fn grid(n: u64, side: u64, pop: u8, seed: u64) -> impl Iterator<Item = (u64, u64, u64)> {
    let mut s = seed;
    (0..n).map(move |_| {
        let at = splitmix(&mut s);
        // Around `pop` bits: several random bits decide about each.
        let bits = (0..64u32).filter(|_| splitmix(&mut s) % 64 < u64::from(pop)).fold(0u64, |a, i| a | 1 << i);
        ((at >> 32) % side, (at & 0xffff_ffff) % side, if pop >= 64 { u64::MAX } else { bits.max(1) })
    })
}

fn grid_edges(n: u64, side: u64, pop: u8, seed: u64) -> impl Iterator<Item = (u64, u64)> {
    grid(n, side, pop, seed)
        .flat_map(|(c, r, b)| (0..64).filter(move |i| b >> i & 1 == 1).map(move |i| (c * 8 + i % 8, r * 8 + i / 8)))
}

/// Graphs of thousands of edges, columns, rows or blocks, up to some 2^17 of them, then few edits.
pub fn large_spec() -> BoxedStrategy<GraphSpec> {
    let stride = || prop_oneof![3 => Just(1u64), 1 => 2u64..10, 1 => (2u32..45).prop_map(|k| 1u64 << k)];
    let star = (0u64..24, 0u64..20, about(10, 17), any::<bool>(), stride())
        .prop_map(|(hub, base, k, out, stride)| GOp::Star { hub, base, k, out, stride });
    let list = (0u64..24, 0u64..20, about(10, 17), stride())
        .prop_map(|(hub, base, k, stride)| GOp::List { hub, base, k, stride, more: vec![] });
    let full = (0u64..40, 32u64..340).prop_map(|(base, k)| GOp::Full { base, k });
    let scatter = (about(10, 17), about(0, 18), about(0, 18), stride(), any::<u64>())
        .prop_map(|(n, cols, rows, stride, seed)| GOp::Scatter { n, cols: cols.max(4), rows: rows.max(4), stride, seed });
    let blocks = (about(8, 15), about(5, 12), prop_oneof![2 => 0u8..8, 1 => 0u8..65, 1 => 60u8..65], any::<u64>())
        .prop_map(|(n, side, pop, seed)| GOp::Grid { n, side, pop, seed });
    (any::<bool>(), prop_oneof![1 => star, 2 => list, 1 => full, 3 => scatter, 3 => blocks], palette_ops(0..8))
        .prop_map(|(und, big, mut ops)| {
            ops.insert(ops.len() / 2, big);
            GraphSpec { und, ops }
        })
        .boxed()
}

/// How often something is done: around 2^8 and, seldom, around 2^16, and twice these.
pub fn often(i: u8, rare: u8) -> u32 {
    let around = i32::from(i >> 1) % 4 - 2;
    let base = match (rare % 64, i & 1) {
        (0, 0) => 1 << 16,
        (0, _) => 1 << 17,
        (_, 0) => 1 << 8,
        _ => 1 << 9,
    };
    (base + around) as u32
}

/// All but `keep` of the items: from the front, from the back, or scattered.
pub fn thinned<T: Copy>(items: &[T], keep: u64, order: u8) -> Vec<T> {
    let n = items.len().saturating_sub(keep as usize);
    match order {
        0 => items[..n].to_vec(),
        1 => items.iter().rev().take(n).copied().collect(),
        _ => permutation(items.len(), u64::from(order)).into_iter().take(n).map(|i| items[i]).collect(),
    }
}

/// How many of k consecutive IDs from `base` are usable.
fn fitting(base: u64, k: u64) -> u64 {
    k.min((u64::MAX - 1).saturating_sub(base))
}

fn star_edges(hub: u64, base: u64, k: u64, out: bool, stride: u64) -> impl Iterator<Item = (u64, u64)> {
    (0..k)
        .map_while(move |i| base.checked_add(i.checked_mul(stride)?).filter(|v| *v < u64::MAX))
        .map(move |v| if out { (hub, v) } else { (v, hub) })
}

fn listed(hub: u64, base: u64, k: u64, stride: u64, more: &[u64]) -> Vec<u64> {
    star_edges(hub, base, k, true, stride).map(|e| e.1).chain(more.iter().copied()).collect()
}

fn one() -> u64 {
    1
}

fn full_edges(base: u64, k: u64) -> impl Iterator<Item = (u64, u64)> {
    let k = fitting(base, k);
    (0..k).flat_map(move |i| (0..k).map(move |j| (base + i, base + j)))
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct GraphSpec {
    pub und: bool,
    pub ops: Vec<GOp>,
}

impl GOp {
    pub fn on_model(&self, m: &mut Model) {
        match self {
            GOp::Edge(a, b) => m.add_edge(*a, *b),
            GOp::Del(a, b) => m.delete_edge(*a, *b),
            GOp::Vertex(v) => m.add_vertex(*v, None),
            GOp::VertexTo(v, t) => m.add_vertex(*v, Some(t)),
            GOp::Block(c, r, bits) => {
                for i in (0..64).filter(|i| bits >> i & 1 == 1) {
                    m.add_edge(c * 8 + i % 8, r * 8 + i / 8);
                }
            }
            GOp::DelBlock(c, r, bits) => {
                for i in (0..64).filter(|i| bits >> i & 1 == 1) {
                    m.delete_edge(c * 8 + i % 8, r * 8 + i / 8);
                }
            }
            GOp::Star { hub, base, k, out, stride } => star_edges(*hub, *base, *k, *out, *stride).for_each(|(a, b)| m.add_edge(a, b)),
            GOp::List { hub, base, k, stride, more } => m.add_vertex(*hub, Some(&listed(*hub, *base, *k, *stride, more))),
            GOp::Full { base, k } => full_edges(*base, *k).for_each(|(a, b)| m.add_edge(a, b)),
            GOp::Scatter { n, cols, rows, stride, seed } => {
                scattered(*n, *cols, *rows, *stride, *seed).for_each(|(a, b)| m.add_edge(a, b))
            }
            GOp::Grid { n, side, pop, seed } => grid_edges(*n, *side, *pop, *seed).for_each(|(a, b)| m.add_edge(a, b)),
            GOp::Thin { hub, base, k, out, stride, keep, order } => {
                let edges: Vec<_> = star_edges(*hub, *base, *k, *out, *stride).collect();
                thinned(&edges, *keep, *order).into_iter().for_each(|(a, b)| m.delete_edge(a, b));
            }
            GOp::Often { a, b, n } => {
                for i in 0..*n {
                    if i % 2 == 0 {
                        m.add_edge(*a, *b)
                    } else {
                        m.delete_edge(*a, *b)
                    }
                }
            }
        }
    }
    pub fn on_graph(&self, g: &mut Graph) {
        match self {
            GOp::Edge(a, b) => g.add_edge(*a, *b),
            GOp::Del(a, b) => g.delete_edge(*a, *b),
            GOp::Vertex(v) => g.add_vertex(*v, None),
            GOp::VertexTo(v, t) => g.add_vertex(*v, Some(t)),
            GOp::Block(c, r, bits) => {
                for i in (0..64).filter(|i| bits >> i & 1 == 1) {
                    g.add_edge(c * 8 + i % 8, r * 8 + i / 8);
                }
            }
            GOp::DelBlock(c, r, bits) => {
                for i in (0..64).filter(|i| bits >> i & 1 == 1) {
                    g.delete_edge(c * 8 + i % 8, r * 8 + i / 8);
                }
            }
            GOp::Star { hub, base, k, out, stride } => star_edges(*hub, *base, *k, *out, *stride).for_each(|(a, b)| g.add_edge(a, b)),
            GOp::List { hub, base, k, stride, more } => g.add_vertex(*hub, Some(&listed(*hub, *base, *k, *stride, more))),
            GOp::Full { base, k } => full_edges(*base, *k).for_each(|(a, b)| g.add_edge(a, b)),
            GOp::Scatter { n, cols, rows, stride, seed } => {
                scattered(*n, *cols, *rows, *stride, *seed).for_each(|(a, b)| g.add_edge(a, b))
            }
            GOp::Grid { n, side, pop, seed } => grid_edges(*n, *side, *pop, *seed).for_each(|(a, b)| g.add_edge(a, b)),
            GOp::Thin { hub, base, k, out, stride, keep, order } => {
                let edges: Vec<_> = star_edges(*hub, *base, *k, *out, *stride).collect();
                thinned(&edges, *keep, *order).into_iter().for_each(|(a, b)| g.delete_edge(a, b));
            }
            GOp::Often { a, b, n } => {
                for i in 0..*n {
                    if i % 2 == 0 {
                        g.add_edge(*a, *b)
                    } else {
                        g.delete_edge(*a, *b)
                    }
                }
            }
        }
    }
}

impl GraphSpec {
    pub fn model(&self) -> Model {
        let mut m = Model::new(self.und);
        for o in &self.ops {
            o.on_model(&mut m);
        }
        m
    }
    pub fn graph(&self) -> Graph {
        let mut g = new_graph(self.und);
        for o in &self.ops {
            o.on_graph(&mut g);
        }
        g
    }
    pub fn both(&self) -> (Model, Graph) {
        (self.model(), self.graph())
    }
}

pub fn new_graph(und: bool) -> Graph {
    if und {
        Graph::new_undirected()
    } else {
        Graph::new_directed()
    }
}

/// Edits over the IDs of a palette.
fn palette_ops(len: std::ops::Range<usize>) -> BoxedStrategy<Vec<GOp>> {
    (palette(), vec((0u8..20, any::<u8>(), any::<u8>(), vec(any::<u8>(), 0..5)), len))
        .prop_map(|(p, raw)| {
            let at = |i: u8| p[i as usize % p.len()];
            raw.into_iter()
                .map(|(k, a, b, t)| match k {
                    0..=11 => GOp::Edge(at(a), at(b)),
                    12..=15 => GOp::Del(at(a), at(b)),
                    16 => GOp::Vertex(at(a)),
                    17 => GOp::VertexTo(at(a), t.into_iter().map(at).collect()),
                    18 => GOp::Edge(at(a), at(a)),
                    _ => GOp::Del(at(b), at(a)),
                })
                .collect()
        })
        .boxed()
}

/// Dense 8x8 blocks, some partly deleted again, with loose edges and a chosen vertex count.
fn block_ops() -> BoxedStrategy<Vec<GOp>> {
    (
        vec((block_coord(), block_coord(), block_bits()), 1..6),
        vec((any::<u8>(), block_bits(), any::<bool>()), 0..2),
        vec((0u64..40, 0u64..40), 0..6),
        prop_oneof![3 => Just(None), 2 => (0u64..100).prop_map(Some), 1 => any_id().prop_map(Some)],
    )
        .prop_map(|(blocks, dels, loose, last)| {
            let mut ops: Vec<GOp> = blocks
                .iter()
                .map(|&(c, r, b)| GOp::Block(c, r, b))
                .collect();
            for (i, bits, at_end) in dels {
                let (c, r, b) = blocks[i as usize % blocks.len()];
                let op = GOp::DelBlock(c, r, bits & b);
                if at_end {
                    ops.push(op);
                } else {
                    ops.insert(1, op);
                }
            }
            ops.extend(loose.into_iter().map(|(a, b)| GOp::Edge(a, b)));
            ops.extend(last.map(GOp::Vertex));
            ops
        })
        .boxed()
}

/// A contiguous small graph of given density.
fn dense_ops() -> BoxedStrategy<Vec<GOp>> {
    (1u64..26, 0u32..=100, any::<u64>())
        .prop_map(|(n, density, mut seed)| {
            let mut ops = vec![GOp::Vertex(n - 1)];
            for a in 0..n {
                for b in 0..n {
                    if splitmix(&mut seed) % 100 < u64::from(density) {
                        ops.push(GOp::Edge(a, b));
                    }
                }
            }
            ops
        })
        .boxed()
}

/// Hundreds to thousands of edges.
fn big_ops() -> BoxedStrategy<Vec<GOp>> {
    (20u64..600, 100usize..1500, any::<u64>())
        .prop_map(|(n, k, mut seed)| {
            (0..k)
                .map(|_| {
                    let a = splitmix(&mut seed) % n;
                    let b = splitmix(&mut seed) % n;
                    if splitmix(&mut seed) % 8 == 0 {
                        GOp::Del(a, b)
                    } else {
                        GOp::Edge(a, b)
                    }
                })
                .collect()
        })
        .boxed()
}

/// Vertices with many neighbours and completely connected ranges: sizes around 2^8, and with
/// `huge` around 2^16.
fn crowded_ops(huge: bool) -> BoxedStrategy<Vec<GOp>> {
    let (stars, squares) = if huge {
        (
            prop_oneof![3 => 65_530u64..65_545, 1 => 65_536u64..75_000].boxed(),
            prop_oneof![2 => Just(256u64), 1 => 254u64..300].boxed(),
        )
    } else {
        (
            prop_oneof![2 => 2u64..60, 3 => 250u64..262, 1 => 60u64..1100].boxed(),
            prop_oneof![3 => 2u64..18, 1 => 14u64..36].boxed(),
        )
    };
    let stride = prop_oneof![
        6 => Just(1u64),
        2 => 2u64..10,
        2 => (2u32..54).prop_map(|k| 1u64 << k),
        1 => any::<u64>().prop_map(|v| v >> 12 | 1),
    ];
    // For a vertex added with a list: items repeated or changed in some bits.
    let more = prop_oneof![
        3 => Just(None),
        1 => vec((any::<u16>(), prop_oneof![1 => Just(64u32), 2 => Just(32u32), 1 => Just(16u32), 1 => Just(8u32), 1 => 0u32..64]), 0..8).prop_map(Some),
    ];
    let star = (any_id(), prop_oneof![3 => 0u64..20, 1 => any_id()], stars, any::<bool>(), stride, more).prop_map(
        |(hub, base, k, out, stride, more)| match more {
            None => GOp::Star { hub, base, k, out, stride },
            Some(more) => {
                let more = more
                    .into_iter()
                    .map(|(i, bit)| {
                        let v = base.saturating_add((u64::from(i) % k).saturating_mul(stride)).min(u64::MAX - 1);
                        (v ^ 1u64.checked_shl(bit).unwrap_or(0)).min(u64::MAX - 1)
                    })
                    .collect();
                GOp::List { hub, base, k, stride, more }
            }
        },
    );
    let full = (prop_oneof![3 => Just(0u64), 2 => (0u64..6).prop_map(|b| b * 8), 2 => 0u64..40], squares)
        .prop_map(|(base, k)| GOp::Full { base, k });
    let main = if huge {
        prop_oneof![2 => star, 1 => full].prop_map(|o| vec![o]).boxed()
    } else {
        vec(prop_oneof![star, full], 1..3).boxed()
    };
    // Some edges near the others come or go, and the vertex count may be larger.
    let thin = prop_oneof![3 => Just(None), 1 => (0u64..12, any::<bool>(), 0u8..4).prop_map(Some)];
    (main, palette_ops(0..10), vec((any::<u8>(), any::<u16>()), 0..6), prop_oneof![2 => Just(None), 1 => (0u64..400).prop_map(Some)], thin)
        .prop_map(|(mut ops, other, dels, last, thin)| {
            let inside: Vec<GOp> = dels
                .into_iter()
                .map(|(i, j)| match &ops[i as usize % ops.len()] {
                    GOp::Star { hub, base, k, out, stride } => {
                        let v = base.saturating_add((u64::from(j) % k).saturating_mul(*stride)).min(u64::MAX - 1);
                        if *out { GOp::Del(*hub, v) } else { GOp::Del(v, *hub) }
                    }
                    GOp::Full { base, k } => GOp::Del(base + u64::from(j) % k, base + u64::from(j) / k % k),
                    _ => GOp::Del(0, 0),
                })
                .collect();
            ops.extend(inside);
            if let (GOp::Star { hub, base, k, out, stride }, Some((keep, most, order))) = (ops[0].clone(), thin) {
                // Down to a few, or by a few.
                let keep = if most { k.saturating_sub(keep) } else { keep };
                ops.push(GOp::Thin { hub, base, k, out, stride, keep, order });
            }
            ops.extend(other);
            ops.extend(last.map(GOp::Vertex));
            ops
        })
        .boxed()
}

pub fn graph_spec() -> BoxedStrategy<GraphSpec> {
    (
        any::<bool>(),
        prop_oneof![
            50 => Just(Vec::new()),
            600 => palette_ops(0..25),
            200 => palette_ops(10..80),
            600 => block_ops(),
            250 => dense_ops(),
            50 => big_ops(),
            60 => crowded_ops(false),
            1 => crowded_ops(true),
        ],
    )
        .prop_map(|(und, ops)| GraphSpec { und, ops })
        .boxed()
}

/// Specs whose vertex count stays small enough to draw the matrix.
pub fn small_graph_spec(max: u64) -> BoxedStrategy<GraphSpec> {
    (
        any::<bool>(),
        prop_oneof![
            2 => Just(Vec::new()),
            12 => palette_ops(0..30),
            6 => block_ops(),
            8 => dense_ops(),
            1 => crowded_ops(false),
        ],
    )
        .prop_map(move |(und, ops)| folded(GraphSpec { und, ops }, max))
        .boxed()
}

/// Thousands of edges among few vertices.
pub fn large_small_spec(low: u64, high: u64) -> BoxedStrategy<GraphSpec> {
    (large_spec(), low..high).prop_map(|(s, max)| folded(s, max)).boxed()
}

/// The same with IDs below `max` only.
fn folded(GraphSpec { und, ops }: GraphSpec, max: u64) -> GraphSpec {
            let f = |v: u64| v % max;
            let bf = |v: u64| v % (max / 8).max(1);
            let ops = ops
                .into_iter()
                .map(|o| match o {
                    GOp::Edge(a, b) => GOp::Edge(f(a), f(b)),
                    GOp::Del(a, b) => GOp::Del(f(a), f(b)),
                    GOp::Vertex(a) => GOp::Vertex(f(a)),
                    GOp::VertexTo(a, t) => GOp::VertexTo(f(a), t.into_iter().map(f).collect()),
                    GOp::Block(a, b, x) => GOp::Block(bf(a), bf(b), x),
                    GOp::DelBlock(a, b, x) => GOp::DelBlock(bf(a), bf(b), x),
                    GOp::Star { hub, base, k, out, .. } => {
                        GOp::Star { hub: f(hub), base: f(base), k: k.min(max - f(base)), out, stride: 1 }
                    }
                    GOp::List { hub, base, k, more, .. } => GOp::List {
                        hub: f(hub),
                        base: f(base),
                        k: k.min(max - f(base)),
                        stride: 1,
                        more: more.into_iter().map(f).collect(),
                    },
                    GOp::Full { base, k } => GOp::Full { base: f(base), k: k.min(max - f(base)) },
                    GOp::Often { a, b, n } => GOp::Often { a: f(a), b: f(b), n },
                    GOp::Scatter { n, seed, .. } => GOp::Scatter { n: n.min(max * max), cols: max, rows: max, stride: 1, seed },
                    GOp::Grid { n, pop, seed, .. } => GOp::Grid { n: n.min(max * max / 64), side: (max / 8).max(1), pop, seed },
                    GOp::Thin { hub, base, k, out, keep, order, .. } => {
                        GOp::Thin { hub: f(hub), base: f(base), k: k.min(max - f(base)), out, stride: 1, keep, order }
                    }
                })
                .collect();
            GraphSpec { und, ops }
}

/// A non-NaN threshold as raw bits (JSON keeps it exact).
pub fn threshold_bits() -> BoxedStrategy<u64> {
    prop_oneof![
        6 => (0u64..=100, 1u64..=100).prop_map(|(a, b)| a.min(b) as f64 / b as f64),
        2 => 0.0f64..1.0,
        1 => Just(0.0),
        1 => Just(1.0),
        1 => prop_oneof![
            Just(-1.0), Just(-0.0), Just(1e-18), Just(9e-19), Just(1.1e-18), Just(1e-19),
            Just(f64::MIN_POSITIVE), Just(5e-324), Just(1.0000000000000002),
            Just(0.9999999999999999), Just(f64::INFINITY), Just(f64::NEG_INFINITY), Just(1e300)
        ],
    ]
    .prop_map(f64::to_bits)
    .boxed()
}

/// A block dimension, absolute or relative to the vertex count.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum BSel {
    Abs(u64),
    /// vertex count divided by this
    Div(u64),
    /// vertex count plus this
    Near(i8),
}

impl BSel {
    pub fn get(&self, n: u64) -> u64 {
        match *self {
            BSel::Abs(b) => b,
            BSel::Div(d) => n / d.max(1),
            BSel::Near(k) => n.saturating_add_signed(i64::from(k)),
        }
    }
}

pub fn bsel() -> BoxedStrategy<BSel> {
    prop_oneof![
        10 => (0u64..20).prop_map(BSel::Abs),
        4 => (0u32..6).prop_map(|k| BSel::Abs(1 << k)),
        3 => (1u64..9).prop_map(BSel::Div),
        3 => (-3i8..4).prop_map(BSel::Near),
        2 => extreme_u64().prop_map(BSel::Abs),
    ]
    .boxed()
}

/// A compression level, absolute or next to the edge count of one of the graph's blocks.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum LSel {
    Abs(u8),
    Near(u8, i8),
}

impl LSel {
    pub fn get(&self, m: &Model) -> u8 {
        match *self {
            LSel::Abs(l) => l,
            LSel::Near(i, d) => {
                let c: Vec<u64> = m.block_counts(8).into_values().collect();
                if c.is_empty() {
                    return i;
                }
                (c[i as usize % c.len()] as i64 + i64::from(d)).clamp(0, 255) as u8
            }
        }
    }
}

pub fn lsel() -> BoxedStrategy<LSel> {
    prop_oneof![
        2 => (0u8..=66).prop_map(LSel::Abs),
        2 => Just(LSel::Abs(1)),
        1 => any::<u8>().prop_map(LSel::Abs),
        6 => (any::<u8>(), -1i8..=1).prop_map(|(i, d)| LSel::Near(i, d)),
    ]
    .boxed()
}

/// Blocks for a compressed graph of `n` vertices: distinct coordinates, bits inside the
/// vertex count, mirrored when undirected, none empty.
pub fn fit_blocks(und: bool, n: u64, raw: &[(u64, u64, u64)]) -> std::collections::BTreeMap<(u64, u64), u64> {
    let mut out = std::collections::BTreeMap::new();
    let dim = n / 8 + u64::from(n % 8 != 0);
    if dim == 0 {
        return out;
    }
    for &(c, r, bits) in raw {
        let (c, r) = (c % dim, r % dim);
        for i in 0..64u64 {
            let (x, y) = (u128::from(c) * 8 + u128::from(i % 8), u128::from(r) * 8 + u128::from(i / 8));
            if bits >> i & 1 == 1 && x < u128::from(n) && y < u128::from(n) {
                *out.entry((c, r)).or_insert(0) |= 1u64 << i;
                if und {
                    *out.entry((r, c)).or_insert(0) |= 1u64 << ((i % 8) * 8 + i / 8);
                }
            }
        }
    }
    out
}

pub fn raw_blocks(len: std::ops::Range<usize>) -> BoxedStrategy<Vec<(u64, u64, u64)>> {
    vec(
        (
            prop_oneof![4 => 0u64..6, 1 => any::<u64>()],
            prop_oneof![4 => 0u64..6, 1 => any::<u64>()],
            block_bits(),
        ),
        len,
    )
    .boxed()
}

/// Vertex counts, often next to a multiple of 8.
pub fn vertex_count() -> BoxedStrategy<u64> {
    prop_oneof![
        1 => Just(0u64),
        4 => 1u64..40,
        4 => (1u64..14, 0u64..3).prop_map(|(k, d)| k * 8 + d - 1),
        1 => any_id(),
        1 => Just(u64::MAX),
    ]
    .boxed()
}

/// Where a compressed graph comes from.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum CSource {
    Compress(GraphSpec, LSel),
    Build { und: bool, n: u64, level: u8, blocks: Vec<(u64, u64, u64)>, weights: bool },
}

pub fn csource() -> BoxedStrategy<CSource> {
    prop_oneof![
        3 => (graph_spec(), lsel()).prop_map(|(s, l)| CSource::Compress(s, l)),
        2 => (any::<bool>(), vertex_count(), any::<u8>(), raw_blocks(0..8), any::<bool>()).prop_map(
            |(und, n, level, blocks, weights)| CSource::Build { und, n, level, blocks, weights }
        ),
    ]
    .boxed()
}

/// A vertex count, and thousands of blocks below it.
pub fn large_blocks() -> BoxedStrategy<(u64, Vec<(u64, u64, u64)>)> {
    (about(8, 15), about(5, 12), prop_oneof![2 => 0u8..8, 1 => 0u8..65], any::<u64>(), 0u64..9)
        .prop_map(|(n, side, pop, seed, less)| (side * 8 - less, grid(n, side, pop, seed).collect()))
        .boxed()
}

pub fn large_csource() -> BoxedStrategy<CSource> {
    prop_oneof![
        2 => (large_spec(), prop_oneof![3 => Just(LSel::Abs(1)), 1 => lsel()]).prop_map(|(s, l)| CSource::Compress(s, l)),
        1 => (large_blocks(), any::<bool>(), any::<u8>(), any::<bool>()).prop_map(|((n, blocks), und, level, weights)| {
            CSource::Build { und, n, level, blocks, weights }
        }),
    ]
    .boxed()
}

impl CSource {
    pub fn model(&self) -> crate::model::CModel {
        match self {
            CSource::Compress(s, l) => {
                let m = s.model();
                m.compress(l.get(&m))
            }
            CSource::Build { und, n, level, blocks, .. } => crate::model::CModel {
                und: *und,
                n: *n,
                level: (*level).clamp(1, 64),
                bits: fit_blocks(*und, *n, blocks),
            },
        }
    }
    pub fn live(&self) -> graphrox::CompressedGraph {
        match self {
            CSource::Compress(s, l) => s.graph().compress(l.get(&s.model())),
            CSource::Build { und, n, level, blocks, weights } => {
                let mut b = graphrox::builder::CompressedGraphBuilder::new(*und, *n, *level);
                for ((c, r), v) in fit_blocks(*und, *n, blocks) {
                    b.add_compressed_matrix_entry(v, c, r, weights.then(|| u64::from(v.count_ones())));
                }
                unsafe { b.finish() }
            }
        }
    }
}
