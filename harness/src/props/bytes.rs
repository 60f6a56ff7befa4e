//! P04, P05 (graph bytes), P06, P07 (compressed graph bytes).
use crate::alloc;
use crate::fw::{boxed, Ctx, Prop, Res, Tier};
use crate::gen::*;
use crate::model::{self, CModel, Model, Verdict};
use crate::props::graph::{in_turns, turns, RawOp};
use crate::views::{self, ck, eq};
use graphrox::error::GraphRoxError;
use graphrox::{CompressedGraph, Graph, GraphRepresentation};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// Bytes a load may hold on to or pass through for an input of `len` bytes.
pub fn load_budget(len: usize) -> usize {
    64 * 1024 + 200 * len
}

/// Loads without letting the input decide how much memory is used.
pub fn load_graph(b: &[u8]) -> Result<Graph, GraphRoxError> {
    Graph::try_from(b)
}

pub struct P04;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C04 {
    spec: GraphSpec,
    order: u64,
    edit: (u64, u64),
    #[serde(default)]
    turns: Vec<RawOp>,
}

impl Prop for P04 {
    type Case = C04;
    const ID: &'static str = "P04";
    const RULE: &'static str = "A case is a graph built by a history of edits; its bytes are parsed by an independent reader of the documented layout and compared with the model, loaded back, and the same edges written by an independent writer in another order are loaded too; all views of the loaded graphs are compared and one more edit is applied to both. The shipped sample graph is loaded as a fixed case. Non-trivial: the graph has an edge.";
    fn cases(t: Tier) -> u64 {
        if t == Tier::Quick { 120_000 } else { 1_800_000 }
    }
    fn strategy(_: Tier) -> BoxedStrategy<C04> {
        boxed(
            (graph_spec(), any::<u64>(), (any_id(), any_id()), turns())
                .prop_map(|(spec, order, edit, turns)| C04 { spec, order, edit, turns }),
        )
    }
    fn large() -> Option<BoxedStrategy<C04>> {
        Some(boxed(
            (large_spec(), any::<u64>(), (any_id(), any_id()))
                .prop_map(|(spec, order, edit)| C04 { spec, order, edit, turns: vec![] }),
        ))
    }
    fn fixed() -> Vec<C04> {
        // Stands for the sample file; see check.
        vec![C04 { spec: GraphSpec { und: true, ops: vec![] }, order: u64::MAX, edit: (0, 0), turns: vec![] }]
    }
    fn check(c: &C04, ctx: &mut Ctx) -> Res {
        if c.order == u64::MAX && c.spec.ops.is_empty() {
            return sample_graph();
        }
        ctx.label_if(!c.turns.is_empty(), "serialised again after edits");
        in_turns(&c.spec, &c.turns, &mut |m, g| {
            let bytes = g.to_bytes().map_err(|e| format!("to_bytes: {e:?}"))?;
            views::graph_bytes(m, &bytes)?;
            let ids = [c.edit.0, c.edit.1];
            views::full(m, g, &ids).map_err(|e| format!("source after to_bytes: {e}"))?;
            let back = Graph::try_from(bytes.as_slice()).map_err(|e| format!("loading own bytes: {e:?}"))?;
            views::full(m, &back, &ids).map_err(|e| format!("loaded graph: {e}"))?;
            let again = back.to_bytes().map_err(|e| format!("to_bytes: {e:?}"))?;
            views::graph_bytes(m, &again).map_err(|e| format!("bytes of the loaded graph: {e}"))?;

            let written = m.bytes(&permutation(m.e.len(), c.order));
            let mut other = Graph::try_from(written.as_slice()).map_err(|e| format!("loading documented bytes: {e:?}"))?;
            views::full(m, &other, &ids).map_err(|e| format!("graph from documented bytes: {e}"))?;

            // The loaded graph is a live graph like any other.
            let mut m2 = m.clone();
            m2.add_edge(c.edit.0, c.edit.1);
            other.add_edge(c.edit.0, c.edit.1);
            if let Some(&(a, b)) = m.e.iter().next() {
                m2.delete_edge(a, b);
                other.delete_edge(a, b);
            }
            views::full(&m2, &other, &ids).map_err(|e| format!("edited loaded graph: {e}"))?;
            let after = other.to_bytes().map_err(|e| format!("to_bytes: {e:?}"))?;
            views::graph_bytes(&m2, &after).map_err(|e| format!("bytes of the edited loaded graph: {e}"))?;

            ctx.nontrivial |= !m.e.is_empty();
            ctx.label_if(m.e.is_empty() && m.n > 0, "vertices but no edges");
            ctx.label_if(m.n == 0, "empty graph");
            ctx.label_if(m.und, "undirected");
            ctx.label_if(m.n > 0 && !m.e.iter().any(|e| e.0 == m.n - 1 || e.1 == m.n - 1), "isolated last vertex");
            ctx.label_if(m.n > 1 << 32, "vertex count above 2^32");
            Ok(())
        })
    }
}

fn sample_graph() -> Res {
    let Ok(b) = std::fs::read("/repo/sample-graphs/ca-HepPh.gphrx") else {
        return Ok(());
    };
    let Verdict::Accept(m) = model::decode_graph(&b) else {
        return Err("the sample graph no longer follows the documented layout".into());
    };
    eq("sample vertex count", m.n, 12008)?;
    eq("sample edge count", m.ec(), 237_010)?;
    let g = Graph::try_from(b.as_slice()).map_err(|e| format!("loading the sample graph: {e:?}"))?;
    views::full(&m, &g, &[0, 5, 12007]).map_err(|e| format!("sample graph: {e}"))?;
    let out = g.to_bytes().map_err(|e| format!("to_bytes: {e:?}"))?;
    views::graph_bytes(&m, &out).map_err(|e| format!("sample graph: {e}"))
}

/// A change to a byte string in the graph or compressed-graph layout.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Mutation {
    /// Overwrite the field (by position in the layout's field list).
    Field(u8, u64),
    /// Add to the field.
    Bump(u8, i8),
    Byte(u16, u8),
    Bit(u16, u8),
    Cut(u8),
    Grow(Vec<u8>),
    /// Repeat record i, at the end; adjust the counts or not.
    Repeat(u8, bool),
    /// Remove record i; adjust the counts or not.
    Drop(u8, bool),
    /// Overwrite 8-byte word j of record i.
    Word(u8, u8, u64),
    /// Copy record i over record j.
    Over(u8, u8),
    /// Swap the last two words of record i (from/to, column/row).
    Flip(u8),
}

fn interesting() -> BoxedStrategy<u64> {
    prop_oneof![
        4 => 0u64..20,
        2 => (0u32..64).prop_map(|k| 1u64 << k),
        2 => (0u32..64).prop_map(|k| (1u64 << k).wrapping_sub(1)),
        // Counts whose byte size wraps around to something small.
        2 => (0u64..6, prop_oneof![Just(60u32), Just(61), Just(59), Just(63), Just(56)]).prop_map(|(d, k)| (1u64 << k).wrapping_add(d)),
        1 => (0u64..6).prop_map(|d| (u64::MAX / 24).wrapping_add(d)),
        1 => (0u64..6).prop_map(|d| (u64::MAX / 3).wrapping_add(d)),
        1 => Just(u64::MAX),
        1 => any::<u64>(),
    ]
    .boxed()
}

fn mutation(fields: u8, words: u8) -> BoxedStrategy<Mutation> {
    prop_oneof![
        5 => (0..fields, interesting()).prop_map(|(f, v)| Mutation::Field(f, v)),
        4 => (0..fields, prop_oneof![Just(-1i8), Just(1), -9i8..10]).prop_map(|(f, d)| Mutation::Bump(f, d)),
        2 => (any::<u16>(), any::<u8>()).prop_map(|(p, v)| Mutation::Byte(p, v)),
        2 => (any::<u16>(), 0u8..8).prop_map(|(p, v)| Mutation::Bit(p, v)),
        2 => (1u8..60).prop_map(Mutation::Cut),
        2 => vec(any::<u8>(), 1..40).prop_map(Mutation::Grow),
        3 => (any::<u8>(), any::<bool>()).prop_map(|(i, a)| Mutation::Repeat(i, a)),
        3 => (any::<u8>(), any::<bool>()).prop_map(|(i, a)| Mutation::Drop(i, a)),
        4 => (any::<u8>(), 0..words, interesting()).prop_map(|(i, w, v)| Mutation::Word(i, w, v)),
        2 => (any::<u8>(), any::<u8>()).prop_map(|(i, j)| Mutation::Over(i, j)),
        2 => any::<u8>().prop_map(Mutation::Flip),
    ]
    .boxed()
}

pub struct Layout {
    header: usize,
    record: usize,
    /// (offset, width)
    fields: &'static [(usize, usize)],
    /// Which field counts records.
    records_field: usize,
    /// Which field counts edges; in compressed graphs a record's edges are its set bits.
    edges_field: usize,
}

pub const GRAPH: Layout = Layout {
    header: 26,
    record: 16,
    fields: &[(0, 4), (4, 4), (8, 8), (16, 8), (24, 1), (25, 1)],
    records_field: 3,
    edges_field: 3,
};

pub const COMPRESSED: Layout = Layout {
    header: 42,
    record: 24,
    fields: &[(0, 4), (4, 4), (8, 8), (16, 8), (24, 8), (32, 8), (40, 1), (41, 1)],
    records_field: 3,
    edges_field: 4,
};

impl Layout {
    fn get(&self, b: &[u8], f: usize) -> u64 {
        let (o, w) = self.fields[f];
        b[o..o + w].iter().fold(0, |a, &x| a << 8 | u64::from(x))
    }
    fn put(&self, b: &mut [u8], f: usize, v: u64) {
        let (o, w) = self.fields[f];
        b[o..o + w].copy_from_slice(&v.to_be_bytes()[8 - w..]);
    }
    fn adjust(&self, b: &mut [u8], up: bool, record: &[u8]) {
        let d = |v: u64, k: u64| if up { v.wrapping_add(k) } else { v.wrapping_sub(k) };
        let n = self.get(b, self.records_field);
        self.put(b, self.records_field, d(n, 1));
        if self.edges_field != self.records_field {
            let pop = u64::from(u64::from_be_bytes(record[..8].try_into().expect("8 bytes")).count_ones());
            let e = self.get(b, self.edges_field);
            self.put(b, self.edges_field, d(e, pop));
        }
    }
    pub fn apply(&self, b: &mut Vec<u8>, m: &Mutation) {
        let whole = b.len() >= self.header;
        let n = b.len().saturating_sub(self.header) / self.record;
        // Among hundreds of records, any of them.
        let at = |i: u8| {
            let i = usize::from(i);
            self.header + if n <= 256 { i % n.max(1) } else { i * (n - 1) / 255 } * self.record
        };
        match m {
            Mutation::Byte(p, v) if !b.is_empty() => {
                let i = *p as usize % b.len();
                b[i] = *v;
            }
            Mutation::Bit(p, k) if !b.is_empty() => {
                let i = *p as usize % b.len();
                b[i] ^= 1 << k;
            }
            Mutation::Cut(k) => b.truncate(b.len().saturating_sub(*k as usize)),
            Mutation::Grow(v) => b.extend(v),
            Mutation::Field(f, v) if whole => self.put(b, *f as usize % self.fields.len(), *v),
            Mutation::Bump(f, d) if whole => {
                let f = *f as usize % self.fields.len();
                let v = self.get(b, f).wrapping_add_signed(i64::from(*d));
                self.put(b, f, v);
            }
            Mutation::Repeat(i, adj) if whole && n > 0 => {
                let r = b[at(*i)..at(*i) + self.record].to_vec();
                b.extend(&r);
                if *adj {
                    self.adjust(b, true, &r);
                }
            }
            Mutation::Drop(i, adj) if whole && n > 0 => {
                let o = at(*i);
                let r: Vec<u8> = b.drain(o..o + self.record).collect();
                if *adj {
                    self.adjust(b, false, &r);
                }
            }
            Mutation::Word(i, w, v) if whole && n > 0 => {
                let o = at(*i) + (*w as usize % (self.record / 8)) * 8;
                b[o..o + 8].copy_from_slice(&v.to_be_bytes());
            }
            Mutation::Over(i, j) if whole && n > 0 => {
                let r = b[at(*i)..at(*i) + self.record].to_vec();
                b[at(*j)..at(*j) + self.record].copy_from_slice(&r);
            }
            Mutation::Flip(i) if whole && n > 0 => {
                let e = at(*i) + self.record;
                for k in 0..8 {
                    b.swap(e - 16 + k, e - 8 + k);
                }
            }
            _ => {}
        }
    }
}

/// What is wrong with one record among many, everything else being as it must.
#[derive(Clone, Copy, Debug)]
pub enum Flaw {
    None,
    Drop,
    Repeat,
    Over(u16),
    Flip,
    /// The word at its limit (the vertex count or the dimension).
    Past(u8),
    /// The first word replaced and the edge count adjusted.
    Bits(u64),
}

impl Layout {
    fn spoil(&self, b: &mut Vec<u8>, pos: u16, flaw: Flaw) {
        let n = (b.len() - self.header) / self.record;
        if n == 0 {
            return;
        }
        let at = |p: u16| self.header + ((usize::from(p) * n) >> 16) * self.record;
        let o = at(pos);
        let limit = self.get(b, 2);
        let record = b[o..o + self.record].to_vec();
        match flaw {
            Flaw::None => {}
            Flaw::Drop => {
                b.drain(o..o + self.record);
                self.adjust(b, false, &record);
            }
            Flaw::Repeat => {
                b.extend(&record);
                self.adjust(b, true, &record);
            }
            Flaw::Over(other) => {
                let t = at(other);
                let old = b[t..t + self.record].to_vec();
                b[t..t + self.record].copy_from_slice(&record);
                self.adjust(b, false, &old);
                self.adjust(b, true, &record);
            }
            Flaw::Flip => {
                let e = o + self.record;
                for k in 0..8 {
                    b.swap(e - 16 + k, e - 8 + k);
                }
            }
            Flaw::Past(w) => {
                let e = o + self.record - 8 * (1 + usize::from(w % 2));
                b[e..e + 8].copy_from_slice(&limit.to_be_bytes());
            }
            Flaw::Bits(v) => {
                if self.edges_field != self.records_field {
                    b[o..o + 8].copy_from_slice(&v.to_be_bytes());
                    let now = b[o..o + self.record].to_vec();
                    self.adjust(b, false, &record);
                    self.adjust(b, true, &now);
                }
            }
        }
    }
}

/// (records, shape, spread, position of the flaw, flaw)
type Crowd = (u16, u8, u64, u16, Flaw);

fn crowd() -> BoxedStrategy<Crowd> {
    let flaw = prop_oneof![
        3 => Just(Flaw::None),
        2 => Just(Flaw::Drop),
        2 => Just(Flaw::Repeat),
        1 => any::<u16>().prop_map(Flaw::Over),
        1 => Just(Flaw::Flip),
        2 => any::<u8>().prop_map(Flaw::Past),
        2 => Just(Flaw::Bits(0)),
        1 => (0u32..64).prop_map(|k| Flaw::Bits(1 << k)),
        1 => any::<u64>().prop_map(Flaw::Bits),
    ];
    // Most flaws sit in the last part, past what may have been looked at.
    let pos = prop_oneof![1 => any::<u16>(), 1 => 0xf000u16..=0xffff, 1 => Just(0xffffu16)];
    ((8u32..14).prop_flat_map(|k| 1u16 << k..2u16 << k), any::<u8>(), 1u64..40, pos, flaw).boxed()
}

/// The coordinates of a crowd of records: side by side, a star, or a ring.
fn crowd_pairs(&(k, shape, spread, ..): &Crowd) -> Vec<(u64, u64)> {
    (0..u64::from(k))
        .map(|i| match shape / 4 % 3 {
            0 => (2 * i * spread, (2 * i + 1) * spread),
            1 => (0, i * spread),
            _ => (i * spread, (i + 1) * spread),
        })
        .collect()
}

fn crowded_graph_bytes() -> BoxedStrategy<Vec<u8>> {
    (crowd(), any::<u64>())
        .prop_map(|(c, order)| {
            let mut m = Model::new(c.1 & 1 == 1);
            for (a, b) in crowd_pairs(&c) {
                m.add_edge(a, b);
            }
            m.n += u64::from(c.1 >> 1 & 1);
            let mut b = m.bytes(&permutation(m.e.len(), order));
            GRAPH.spoil(&mut b, c.3, c.4);
            b
        })
        .boxed()
}

fn crowded_compressed_bytes() -> BoxedStrategy<Vec<u8>> {
    (crowd(), any::<u64>(), block_bits(), 1u8..65, 0u64..8)
        .prop_map(|(c, order, bits, level, short)| {
            let pairs = crowd_pairs(&c);
            let dim = pairs.iter().map(|p| p.0.max(p.1)).max().unwrap_or(0) + 1;
            let (und, n) = (c.1 & 1 == 1, dim * 8 - short);
            let raw: Vec<_> = pairs.into_iter().map(|(x, y)| (x, y, bits)).collect();
            let m = CModel { und, n, level, bits: fit_blocks(und, n, &raw) };
            let mut b = m.bytes(&permutation(m.bits.len(), order));
            COMPRESSED.spoil(&mut b, c.3, c.4);
            b
        })
        .boxed()
}

mod hex {
    use serde::{Deserialize, Deserializer, Serializer};
    pub fn serialize<S: Serializer>(b: &[u8], s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&b.iter().map(|x| format!("{x:02x}")).collect::<String>())
    }
    pub fn deserialize<'a, D: Deserializer<'a>>(d: D) -> Result<Vec<u8>, D::Error> {
        let s = String::deserialize(d)?;
        (0..s.len() / 2)
            .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).map_err(serde::de::Error::custom))
            .collect()
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RawBytes {
    #[serde(with = "hex")]
    pub bytes: Vec<u8>,
}

/// Smaller graphs than `graph_spec`: byte strings of at most a few kilobytes.
fn byte_spec() -> BoxedStrategy<GraphSpec> {
    prop_oneof![3 => small_graph_spec(10), 3 => small_graph_spec(30), 2 => graph_spec()].boxed()
}

pub fn graph_like_bytes() -> BoxedStrategy<RawBytes> {
    let valid = (byte_spec(), any::<u64>()).prop_map(|(s, o)| {
        let m = s.model();
        m.bytes(&permutation(m.e.len(), o))
    });
    // A header followed by pairs over a few IDs: duplicates and half-listed edges abound.
    let pairs = (
        vec((0u64..5, 0u64..5), 0..9),
        any::<bool>(),
        prop_oneof![3 => 4u64..7, 1 => interesting()],
        prop_oneof![Just(None), (0u64..12).prop_map(Some)],
    )
        .prop_map(|(p, und, n, count)| {
            let set: std::collections::BTreeSet<(u64, u64)> = p
                .iter()
                .flat_map(|&(a, b)| if und { vec![(a, b), (b, a)] } else { vec![(a, b)] })
                .collect();
            let ec = count.unwrap_or(if p.len() % 2 == 0 { p.len() } else { set.len() } as u64);
            let mut out = model::graph_header(0x7ae7_1ffd, 1, n, ec, u8::from(und), 0);
            for (a, b) in p {
                out.extend(a.to_be_bytes());
                out.extend(b.to_be_bytes());
            }
            out
        });
    prop_oneof![
        1 => crowded_graph_bytes(),
        1800 => valid.clone(),
        7200 => (valid, vec(mutation(6, 2), 1..4)).prop_map(|(mut b, ms)| {
            for m in &ms {
                GRAPH.apply(&mut b, m);
            }
            b
        }),
        3000 => pairs,
        600 => vec(any::<u8>(), 0..90),
        600 => (vec(any::<u8>(), 0..60)).prop_map(|v| {
            let mut b = vec![0x7a, 0xe7, 0x1f, 0xfd, 0, 0, 0, 1];
            b.extend(v);
            b
        }),
    ]
    .prop_map(|bytes| RawBytes { bytes })
    .boxed()
}

pub fn compressed_like_bytes() -> BoxedStrategy<RawBytes> {
    let src = prop_oneof![
        2 => csource(),
        4 => (any::<bool>(), 1u64..40, 1u8..65, raw_blocks(0..6))
            .prop_map(|(und, n, level, blocks)| CSource::Build { und, n, level, blocks, weights: false }),
        2 => (byte_spec(), lsel()).prop_map(|(s, l)| CSource::Compress(s, l)),
    ]
    .boxed();
    let valid = (src, any::<u64>()).prop_map(|(s, o)| {
        let m = s.model();
        m.bytes(&permutation(m.bits.len(), o))
    });
    // Any blocks at all under a plausible header.
    let blocks = (
        vec((prop_oneof![6 => block_bits(), 1 => Just(0u64)], 0u64..4, 0u64..4), 0..5),
        any::<bool>(),
        0u64..34,
        0u8..68,
        -1i8..=1,
        prop_oneof![4 => Just(0i8), 1 => -2i8..3],
    )
        .prop_map(|(bl, und, n, level, de, dd)| {
            let m = CModel { und, n, level, bits: Default::default() };
            let pop: u64 = bl.iter().map(|b| u64::from(b.0.count_ones())).sum();
            let mut out = model::compressed_header(&model::CHeader {
                magic: 0x71ff_7aed,
                version: 2,
                dim: m.dim().wrapping_add_signed(i64::from(dd)),
                entries: bl.len() as u64,
                edges: if de == 0 { pop } else { pop.wrapping_add_signed(i64::from(de)) },
                n,
                und: u8::from(und),
                level,
            });
            for (b, c, r) in bl {
                for w in [b, c, r] {
                    out.extend(w.to_be_bytes());
                }
            }
            out
        });
    prop_oneof![
        1 => crowded_compressed_bytes(),
        1800 => valid.clone(),
        7200 => (valid, vec(mutation(8, 3), 1..4)).prop_map(|(mut b, ms)| {
            for m in &ms {
                COMPRESSED.apply(&mut b, m);
            }
            b
        }),
        3000 => blocks,
        600 => vec(any::<u8>(), 0..120),
        600 => (vec(any::<u8>(), 0..80)).prop_map(|v| {
            let mut b = vec![0x71, 0xff, 0x7a, 0xed, 0, 0, 0, 2];
            b.extend(v);
            b
        }),
    ]
    .prop_map(|bytes| RawBytes { bytes })
    .boxed()
}

/// The bytes of large graphs, valid or with one change.
pub fn large_graph_bytes() -> BoxedStrategy<RawBytes> {
    (large_spec(), any::<u64>(), prop_oneof![2 => Just(None), 1 => mutation(6, 2).prop_map(Some)])
        .prop_map(|(s, o, change)| {
            let m = s.model();
            let mut bytes = m.bytes(&permutation(m.e.len(), o));
            if let Some(c) = change {
                GRAPH.apply(&mut bytes, &c);
            }
            RawBytes { bytes }
        })
        .boxed()
}

pub fn large_compressed_bytes() -> BoxedStrategy<RawBytes> {
    (large_csource(), any::<u64>(), prop_oneof![2 => Just(None), 1 => mutation(8, 3).prop_map(Some)])
        .prop_map(|(s, o, change)| {
            let m = s.model();
            let mut bytes = m.bytes(&permutation(m.bits.len(), o));
            if let Some(c) = change {
                COMPRESSED.apply(&mut bytes, &c);
            }
            RawBytes { bytes }
        })
        .boxed()
}

pub struct P05;

impl Prop for P05 {
    type Case = RawBytes;
    const ID: &'static str = "P05";
    const RULE: &'static str = "A case is a byte string: valid graph bytes, valid bytes with one to three structure-aware changes (header fields, counts that overflow, repeated, dropped, reversed or overwritten edges, cuts, bit flips), edge lists with duplicates under a chosen header, or random bytes. An independent decoder says accept (as which graph), reject, or either; the loader must agree, return only the invalid-format error, never panic, and stay within 64 KiB + 200 bytes per input byte of memory. Non-trivial: the bytes carry the right magic and version and at least a whole header.";
    fn cases(t: Tier) -> u64 {
        if t == Tier::Quick { 1_600_000 } else { 32_000_000 }
    }
    fn strategy(_: Tier) -> BoxedStrategy<RawBytes> {
        graph_like_bytes()
    }
    fn large() -> Option<BoxedStrategy<RawBytes>> {
        Some(large_graph_bytes())
    }
    fn check(c: &RawBytes, ctx: &mut Ctx) -> Res {
        check_graph_bytes(&c.bytes, Some(ctx))
    }
}

pub fn check_graph_bytes(b: &[u8], ctx: Option<&mut Ctx>) -> Res {
    let want = model::decode_graph(b);
    let (got, peak) = alloc::measured(|| load_graph(b));
    ck!(
        peak <= load_budget(b.len()),
        "loading {} bytes used {peak} bytes of memory",
        b.len()
    );
    if let Some(ctx) = ctx {
        ctx.nontrivial = b.len() >= 26 && b[..8] == [0x7a, 0xe7, 0x1f, 0xfd, 0, 0, 0, 1];
        ctx.label(match &want {
            Verdict::Accept(_) => "accept",
            Verdict::Either(_) => "redundant listing, either answer",
            Verdict::Reject(why) => why,
        });
    }
    match (&want, got) {
        (Verdict::Accept(m) | Verdict::Either(m), Ok(g)) => {
            views::full(m, &g, &[]).map_err(|e| format!("loaded graph: {e}"))?;
            let out = g.to_bytes().map_err(|e| format!("to_bytes of the loaded graph: {e:?}"))?;
            views::graph_bytes(m, &out).map_err(|e| format!("bytes of the loaded graph: {e}"))
        }
        (Verdict::Either(_) | Verdict::Reject(_), Err(GraphRoxError::InvalidFormat(_))) => Ok(()),
        (Verdict::Reject(why), Ok(g)) => Err(format!(
            "accepted bytes that must be rejected ({why}) as a graph of {} vertices, {} edges",
            g.vertex_count(),
            g.edge_count()
        )),
        (Verdict::Accept(m), Err(e)) => Err(format!(
            "rejected the bytes of a graph of {} vertices, {} edges: {e:?}",
            m.n,
            m.ec()
        )),
        (_, Err(e)) => Err(format!("wrong kind of error: {e:?}")),
    }
}

pub struct P06;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C06 {
    src: CSource,
    order: u64,
}

impl Prop for P06 {
    type Case = C06;
    const ID: &'static str = "P06";
    const RULE: &'static str = "A case is a compressed graph, from compressing a generated graph or from the builder; its bytes are compared with an independent writer of the documented layout, loaded back, and the independent bytes in another block order are loaded too; all views, the decompressed graph and the bytes of each loaded graph are compared with the model. The shipped version 1 samples must be rejected (fixed case). Non-trivial: at least one block is stored.";
    fn cases(t: Tier) -> u64 {
        if t == Tier::Quick { 240_000 } else { 3_600_000 }
    }
    fn strategy(_: Tier) -> BoxedStrategy<C06> {
        boxed((csource(), any::<u64>()).prop_map(|(src, order)| C06 { src, order }))
    }
    fn large() -> Option<BoxedStrategy<C06>> {
        Some(boxed((large_csource(), any::<u64>()).prop_map(|(src, order)| C06 { src, order })))
    }
    fn fixed() -> Vec<C06> {
        vec![C06 {
            src: CSource::Build { und: false, n: 0, level: 0, blocks: vec![], weights: false },
            order: u64::MAX,
        }]
    }
    fn check(c: &C06, ctx: &mut Ctx) -> Res {
        if c.order == u64::MAX {
            old_samples()?;
        }
        let m = c.src.model();
        let k = c.src.live();
        views::compressed(&m, &k).map_err(|e| format!("source: {e}"))?;
        let bytes = k.to_bytes().map_err(|e| format!("to_bytes: {e:?}"))?;
        views::compressed_bytes(&m, &bytes)?;
        let written = m.bytes(&permutation(m.bits.len(), c.order));
        for (what, b) in [("own bytes", &bytes), ("documented bytes", &written)] {
            let back = CompressedGraph::try_from(b.as_slice()).map_err(|e| format!("loading {what}: {e:?}"))?;
            views::compressed(&m, &back).map_err(|e| format!("loaded from {what}: {e}"))?;
            let again = back.to_bytes().map_err(|e| format!("to_bytes: {e:?}"))?;
            views::compressed_bytes(&m, &again).map_err(|e| format!("bytes after loading {what}: {e}"))?;
            let d = back.decompress();
            views::full(&m.decompress(), &d, &[]).map_err(|e| format!("decompressed from {what}: {e}"))?;
        }
        ctx.nontrivial = !m.bits.is_empty();
        ctx.label_if(matches!(c.src, CSource::Build { .. }), "from the builder");
        ctx.label_if(m.bits.values().any(|&b| b == u64::MAX), "full block");
        ctx.label_if(m.n % 8 != 0, "vertex count not a multiple of 8");
        ctx.label_if(m.bits.is_empty(), "no blocks");
        ctx.label_if(m.n > 1 << 32, "vertex count above 2^32");
        Ok(())
    }
}

fn old_samples() -> Res {
    for f in ["ca-AstroPh.cgphrx", "ca-HepPh.cgphrx"] {
        let Ok(b) = std::fs::read(format!("/repo/sample-graphs/{f}")) else {
            continue;
        };
        ck!(
            matches!(CompressedGraph::try_from(b.as_slice()), Err(GraphRoxError::InvalidFormat(_))),
            "the version 1 sample {f} was not rejected"
        );
    }
    Ok(())
}

pub struct P07;

impl Prop for P07 {
    type Case = RawBytes;
    const ID: &'static str = "P07";
    const RULE: &'static str = "A case is a byte string: valid compressed-graph bytes, valid bytes with one to three structure-aware changes (header fields, overflowing counts, repeated, dropped, transposed or overwritten blocks, cuts, bit flips), arbitrary blocks under a plausible header, or random bytes. An independent decoder says accept (as which compressed graph) or reject; the loader must agree, return only the invalid-format error, never panic, and stay within 64 KiB + 200 bytes per input byte of memory; an accepted graph must agree with the model in all views, in decompression and when serialised again. Non-trivial: the bytes carry the right magic and version and at least a whole header.";
    fn cases(t: Tier) -> u64 {
        if t == Tier::Quick { 2_000_000 } else { 40_000_000 }
    }
    fn strategy(_: Tier) -> BoxedStrategy<RawBytes> {
        compressed_like_bytes()
    }
    fn large() -> Option<BoxedStrategy<RawBytes>> {
        Some(large_compressed_bytes())
    }
    fn check(c: &RawBytes, ctx: &mut Ctx) -> Res {
        check_compressed_bytes(&c.bytes, Some(ctx))
    }
}

pub fn check_compressed_bytes(b: &[u8], ctx: Option<&mut Ctx>) -> Res {
    let want = model::decode_compressed(b);
    let (got, peak) = alloc::measured(|| CompressedGraph::try_from(b));
    ck!(
        peak <= load_budget(b.len()),
        "loading {} bytes used {peak} bytes of memory",
        b.len()
    );
    if let Some(ctx) = ctx {
        ctx.nontrivial = b.len() >= 42 && b[..8] == [0x71, 0xff, 0x7a, 0xed, 0, 0, 0, 2];
        ctx.label(match &want {
            Verdict::Accept(_) => "accept",
            Verdict::Either(_) => "either",
            Verdict::Reject(why) => why,
        });
    }
    match (&want, got) {
        (Verdict::Accept(m) | Verdict::Either(m), Ok(k)) => {
            views::compressed(m, &k).map_err(|e| format!("loaded compressed graph: {e}"))?;
            let out = k.to_bytes().map_err(|e| format!("to_bytes: {e:?}"))?;
            views::compressed_bytes(m, &out)?;
            let d: Model = m.decompress();
            views::full(&d, &k.decompress(), &[]).map_err(|e| format!("decompressed: {e}"))
        }
        (Verdict::Either(_) | Verdict::Reject(_), Err(GraphRoxError::InvalidFormat(_))) => Ok(()),
        (Verdict::Reject(why), Ok(k)) => Err(format!(
            "accepted bytes that must be rejected ({why}) as a compressed graph of {} vertices, {} edges",
            k.vertex_count(),
            k.edge_count()
        )),
        (Verdict::Accept(m), Err(e)) => Err(format!(
            "rejected the bytes of a compressed graph of {} vertices, {} blocks: {e:?}",
            m.n,
            m.bits.len()
        )),
        (_, Err(e)) => Err(format!("wrong kind of error: {e:?}")),
    }
}
