//! P01 (edge-set model), P02 (symmetry), P03 (independence).
use crate::fw::{boxed, Ctx, Prop, Res, Tier};
use crate::gen::*;
use crate::model::Model;
use crate::views::{self, ck, eq};
use graphrox::matrix::{CsrAdjacencyMatrix, CsrSquareMatrix, MatrixRepresentation};
use graphrox::{CompressedGraph, Graph, GraphRepresentation};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

/// Where the graph under test came from before the history starts.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Origin {
    New(bool),
    /// Entries set (true) or zeroed (false), then converted (mirrored first if undirected).
    Matrix { und: bool, unchecked: bool, ops: Vec<(bool, u64, u64)> },
    Bytes { spec: GraphSpec, order: u64 },
    Decompressed { spec: GraphSpec, level: u8 },
    /// Block dimension 2^k; threshold j / 4^k, so the model is exact.
    Approx { spec: GraphSpec, k: u32, j: u64 },
    Clone(GraphSpec),
}

pub fn origin() -> BoxedStrategy<Origin> {
    prop_oneof![
        6 => any::<bool>().prop_map(Origin::New),
        2 => (any::<bool>(), any::<bool>(), palette(), vec((0u8..5, any::<u8>(), any::<u8>()), 0..20)).prop_map(
            |(und, unchecked, p, ops)| Origin::Matrix {
                und,
                unchecked,
                ops: ops
                    .into_iter()
                    .map(|(k, a, b)| (k > 0, p[a as usize % p.len()], p[b as usize % p.len()]))
                    .collect(),
            }
        ),
        2 => (graph_spec(), any::<u64>()).prop_map(|(spec, order)| Origin::Bytes { spec, order }),
        2 => (graph_spec(), 0u8..70).prop_map(|(spec, level)| Origin::Decompressed { spec, level }),
        2 => (graph_spec(), 1u32..5, 0u64..40).prop_map(|(spec, k, j)| Origin::Approx { spec, k, j }),
        1 => graph_spec().prop_map(Origin::Clone),
    ]
    .boxed()
}

impl Origin {
    pub fn both(&self) -> Result<(Model, Graph), String> {
        Ok(match self {
            Origin::New(und) => (Model::new(*und), new_graph(*und)),
            Origin::Matrix { und, unchecked, ops } => {
                let mut m = Model::new(*und);
                let mut a = CsrAdjacencyMatrix::new();
                for &(set, c, r) in ops {
                    let mut both = vec![(c, r)];
                    if *und {
                        both.push((r, c));
                    }
                    if set {
                        m.add_edge(c, r);
                        for (c, r) in both {
                            a.set_entry(1, c, r);
                        }
                    } else {
                        m.delete_edge(c, r);
                        for (c, r) in both {
                            a.zero_entry(c, r);
                        }
                    }
                }
                let g = match (*und, *unchecked) {
                    (false, _) => Graph::directed_from(a),
                    (true, false) => {
                        Graph::undirected_from(a).map_err(|e| format!("undirected_from a symmetric matrix: {e:?}"))?
                    }
                    (true, true) => unsafe { Graph::undirected_from_unchecked(a) },
                };
                (m, g)
            }
            Origin::Bytes { spec, order } => {
                let m = spec.model();
                let b = m.bytes(&permutation(m.e.len(), *order));
                let g = Graph::try_from(b.as_slice()).map_err(|e| format!("loading valid bytes: {e:?}"))?;
                (m, g)
            }
            Origin::Decompressed { spec, level } => {
                let (m, g) = spec.both();
                (m.compress(*level).decompress(), g.compress(*level).decompress())
            }
            Origin::Approx { spec, k, j } => {
                let (m, g) = spec.both();
                let b = (1u64 << k).min(m.n.max(1));
                let area = (1u128 << (2 * k)) as f64;
                let t = *j as f64 / area;
                let a = g.approximate(1 << k, t);
                if b <= 1 || m.n <= 1 {
                    return Ok((m, a));
                }
                let mut am = Model::new(m.und);
                am.n = m.n / b + u64::from(m.n % b != 0);
                for ((c, r), cnt) in m.block_counts(b) {
                    match views::reaches(cnt, b, t) {
                        Some(true) => {
                            am.e.insert((c, r));
                        }
                        Some(false) => {}
                        // The vertex count replaced the block dimension: undecided blocks
                        // follow the implementation here; P11 decides them.
                        None => {
                            if a.does_edge_exist(c, r) {
                                am.e.insert((c, r));
                            }
                        }
                    }
                }
                (am, a)
            }
            Origin::Clone(spec) => {
                let (m, g) = spec.both();
                (m, g.clone())
            }
        })
    }
    fn label(&self) -> &'static str {
        match self {
            Origin::New(_) => "origin: new",
            Origin::Matrix { .. } => "origin: matrix",
            Origin::Bytes { .. } => "origin: bytes",
            Origin::Decompressed { .. } => "origin: decompressed",
            Origin::Approx { .. } => "origin: approximation",
            Origin::Clone(_) => "origin: clone",
        }
    }
}

/// (kind, from, to, list): IDs by position in the case's pool of IDs.
pub type RawOp = (u8, u8, u8, Vec<u8>);

pub fn resolve(op: &RawOp, ids: &[u64]) -> GOp {
    let at = |i: u8| ids[i as usize % ids.len()];
    let (k, a, b, t) = op;
    match k {
        0..=9 => GOp::Edge(at(*a), at(*b)),
        10..=16 => GOp::Del(at(*a), at(*b)),
        17 | 18 => GOp::Vertex(at(*a)),
        19 | 20 => GOp::VertexTo(at(*a), t.iter().map(|&i| at(i)).collect()),
        21 => GOp::Edge(at(*a), at(*a)),
        22 => GOp::Del(at(*a), at(*a)),
        _ => GOp::Del(at(*b), at(*a)),
    }
}

pub fn pool_of(ids: &[u64], m: &Model) -> Vec<u64> {
    let mut v = ids.to_vec();
    v.extend(m.e.iter().take(12).map(|e| e.0));
    v.extend(m.e.iter().rev().take(6).map(|e| e.1));
    v
}

/// Edits of a history: those of `resolve`, and deletions of edges that exist, alone or making
/// room for another edge so that the counts stay as they are.
pub fn edits(len: std::ops::Range<usize>) -> BoxedStrategy<Vec<RawOp>> {
    vec((prop_oneof![120 => 0u8..32, 1 => Just(32u8)], any::<u8>(), any::<u8>(), vec(any::<u8>(), 0..4)), len).boxed()
}

/// Edits between two rounds of the same check on one object: mostly none.
pub fn turns() -> BoxedStrategy<Vec<RawOp>> {
    prop_oneof![3 => Just(vec![]), 1 => edits(1..4)].boxed()
}

pub fn resolve_in(op: &RawOp, pool: &[u64], m: &Model) -> Vec<GOp> {
    let (k, a, b, t) = op;
    if *k < 24 || m.e.is_empty() {
        return vec![resolve(op, pool)];
    }
    // Edges near the front or the back, where the pool's IDs are, and beyond.
    let i = (*a as usize) % m.e.len();
    let &(x, y) = if k % 2 == 0 { m.e.iter().nth(i) } else { m.e.iter().nth_back(i) }.expect("an edge");
    let at = |i: u8| pool[i as usize % pool.len()];
    match k {
        24..=27 => vec![GOp::Del(x, y)],
        28 => vec![GOp::Del(y, x)],
        29 => vec![GOp::Del(x, y), GOp::Edge(x, at(*b))],
        30 => vec![GOp::Del(x, y), GOp::Edge(at(*b), y)],
        32 => {
            // Where edits are counted in a few bits, the count may be back where it was.
            let t = |i: usize| t.get(i).copied().unwrap_or(0);
            vec![GOp::Del(x, y), GOp::Often { a: at(*b), b: at(t(0)), n: often(t(1), a ^ t(2) ^ 1) - 1 }]
        }
        _ => vec![GOp::Del(x, y), GOp::Edge(at(*b), at(t.first().copied().unwrap_or(7)))],
    }
}

/// Runs a check, then again after each of the edits, on one live object.
pub fn in_turns(spec: &GraphSpec, turns: &[RawOp], round: &mut dyn FnMut(&Model, &Graph) -> Res) -> Res {
    let (mut m, mut g) = spec.both();
    round(&m, &g)?;
    for (i, raw) in turns.iter().enumerate() {
        let ops = resolve_in(raw, &pool_of(&[0, 1, 7, 8], &m), &m);
        for o in &ops {
            o.on_model(&mut m);
            o.on_graph(&mut g);
        }
        round(&m, &g).map_err(|e| format!("in turn {i}, after {ops:?}: {e}"))?;
    }
    Ok(())
}

/// A single question about a graph.
pub fn ask(m: &Model, g: &Graph, kind: u8, v: u64, w: u64) -> Res {
    let sorted = |mut v: Vec<u64>| {
        v.sort_unstable();
        v
    };
    match kind % 9 {
        0 => eq(&format!("in_degree({v})"), g.get_vertex_in_degree(v), m.ins(v).len() as u64),
        1 => eq(&format!("out_degree({v})"), g.get_vertex_out_degree(v), m.out(v).len() as u64),
        2 => eq(&format!("in_edges({v})"), sorted(g.get_vertex_in_edges(v)), sorted(m.ins(v))),
        3 => eq(&format!("out_edges({v})"), sorted(g.get_vertex_out_edges(v)), sorted(m.out(v))),
        4 | 5 => eq(&format!("does_edge_exist({v}, {w})"), g.does_edge_exist(v, w), m.e.contains(&(v, w))),
        6 => eq("edge_count", g.edge_count(), m.ec()),
        7 => eq("vertex_count", g.vertex_count(), m.n),
        _ => eq("iterated edges", views::edges_of(g)?, m.e.clone()),
    }
}

pub struct P01;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C01 {
    origin: Origin,
    ids: Vec<u64>,
    ops: Vec<RawOp>,
    /// (kind, vertex, vertex): when not empty, all that is asked before the end.
    #[serde(default)]
    asks: Vec<(u8, u8, u8)>,
}

impl Prop for P01 {
    type Case = C01;
    const ID: &'static str = "P01";
    const RULE: &'static str = "A case is a starting point (new, matrix, bytes, decompression, approximation, clone) and a history of additions and deletions over a small pool of IDs; after every operation counts and touched edges, and every fourth operation and at the end all views, are compared with a set-of-edges model. Non-trivial: the history deletes an edge that exists and later changes the graph again, or edits a graph that did not start empty.";
    fn cases(t: Tier) -> u64 {
        if t == Tier::Quick { 160_000 } else { 2_400_000 }
    }
    fn strategy(t: Tier) -> BoxedStrategy<C01> {
        let long = if t == Tier::Quick { 150 } else { 400 };
        boxed(
            (
                origin(),
                palette(),
                prop_oneof![10 => edits(0..20), 6 => edits(10..50), 1 => edits(50..long)],
                prop_oneof![2 => Just(vec![]), 1 => vec((any::<u8>(), any::<u8>(), any::<u8>()), 1..3)],
            )
                .prop_map(|(origin, ids, ops, asks)| C01 { origin, ids, ops, asks }),
        )
    }
    fn large() -> Option<BoxedStrategy<C01>> {
        let origin = prop_oneof![
            2 => large_spec().prop_map(Origin::Clone),
            1 => (large_spec(), any::<u64>()).prop_map(|(spec, order)| Origin::Bytes { spec, order }),
            1 => (large_spec(), 0u8..10).prop_map(|(spec, level)| Origin::Decompressed { spec, level }),
            1 => (large_spec(), 1u32..4, 0u64..5).prop_map(|(spec, k, j)| Origin::Approx { spec, k, j }),
        ];
        Some(boxed((origin, palette(), edits(0..6)).prop_map(|(origin, ids, ops)| C01 { origin, ids, ops, asks: vec![] })))
    }
    fn fixed() -> Vec<C01> {
        // A column and a row with tens of thousands of entries, then deletions.
        let ops: Vec<GOp> = (0..40_000u64)
            .map(|i| GOp::Edge(7, i * 3))
            .chain((0..30_000u64).map(|i| GOp::Edge(i * 5, 11)))
            .chain((0..500u64).map(|i| GOp::Del(7, i * 6)))
            .collect();
        [false, true]
            .into_iter()
            .map(|und| C01 {
                origin: Origin::Clone(GraphSpec { und, ops: ops.clone() }),
                ids: vec![7, 11, 21, 55],
                ops: vec![(0, 0, 1, vec![]), (10, 0, 2, vec![]), (10, 3, 1, vec![]), (0, 0, 2, vec![])],
                asks: vec![],
            })
            .collect()
    }
    fn check(c: &C01, ctx: &mut Ctx) -> Res {
        let (mut m, mut g) = c.origin.both()?;
        ctx.label(c.origin.label());
        let pool = pool_of(&c.ids, &m);
        let at = |i: u8| pool[i as usize % pool.len()];
        let asking = |m: &Model, g: &Graph| -> Res {
            for &(k, v, w) in &c.asks {
                ask(m, g, k, at(v), at(w))?;
            }
            Ok(())
        };
        let focused = !c.asks.is_empty();
        if focused {
            ctx.label("asks the same questions after every edit");
            asking(&m, &g).map_err(|e| format!("at the start: {e}"))?;
        } else {
            views::full(&m, &g, &c.ids).map_err(|e| format!("at the start: {e}"))?;
        }
        let seeded = !m.e.is_empty();
        let mut effective_delete = false;
        for (i, raw) in c.ops.iter().enumerate() {
            for op in resolve_in(raw, &pool, &m) {
                let before = (m.n, m.ec());
                op.on_model(&mut m);
                op.on_graph(&mut g);
                if let GOp::Del(a, b) = op {
                    if m.ec() < before.1 {
                        effective_delete = true;
                        ctx.label("deletes an existing edge");
                        ctx.label_if(m.out(a).is_empty(), "empties a column");
                        ctx.label_if(a == b, "deletes a self loop");
                    } else {
                        ctx.label("deletes a missing edge");
                    }
                } else {
                    if effective_delete || seeded {
                        ctx.nontrivial = true;
                    }
                    ctx.label_if(
                        matches!(op, GOp::Edge(..)) && before == (m.n, m.ec()),
                        "adds an edge again",
                    );
                }
                ctx.label_if(matches!(op, GOp::Often { .. }), "hundreds of edits at once");
                if focused {
                    continue;
                }
                let pairs: Vec<(u64, u64)> = match &op {
                    GOp::Edge(a, b) | GOp::Del(a, b) | GOp::Often { a, b, .. } => vec![(*a, *b)],
                    GOp::VertexTo(a, t) => t.iter().map(|b| (*a, *b)).collect(),
                    _ => vec![],
                };
                views::light(&m, &g, &pairs).map_err(|e| format!("after step {i} {op:?}: {e}"))?;
            }
            if focused {
                asking(&m, &g).map_err(|e| format!("after step {i} {raw:?}: {e}"))?;
            } else if i % 4 == 3 {
                views::full(&m, &g, &pool).map_err(|e| format!("after step {i} {raw:?}: {e}"))?;
            }
        }
        ctx.label_if(m.n > 1 << 32, "vertex count above 2^32");
        ctx.label_if(m.ec() >= 1000, "over 1000 edges");
        views::full(&m, &g, &pool).map_err(|e| format!("at the end: {e}"))
    }
}

pub struct P02;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Step {
    Edit(Vec<RawOp>),
    Bytes(u64),
    Approx(u64, u64),
    Compress(u8),
    CompressedBytes(u8, u64),
    Matrix,
    Clone,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C02 {
    start: GraphSpec,
    ids: Vec<u64>,
    steps: Vec<Step>,
    /// Matrix for the conversion check: entries, whether to mirror them all, and which
    /// mirrored entry to leave out again.
    entries: Vec<(u64, u64)>,
    mirror: bool,
    drop: Option<u8>,
    /// Entries around those, each with its mirror image: (first ID, distance, pairs, shape).
    #[serde(default)]
    crowd: Option<(u64, u64, u16, u8)>,
}

/// The mirrored entries of a crowd: pairs side by side, a star, or a ring.
fn crowd(&(base, gap, pairs, shape): &(u64, u64, u16, u8)) -> Vec<(u64, u64)> {
    let at = |i: u64| base.wrapping_add(i.wrapping_mul(gap)).min(u64::MAX - 1);
    (0..u64::from(pairs))
        .map(|i| match shape % 3 {
            0 => (at(2 * i), at(2 * i + 1)),
            1 => (at(0), at(i)),
            _ => (at(i), at(i + 1)),
        })
        .collect()
}

fn symmetric(g: &Graph, ids: &[u64]) -> Res {
    let set = views::edges_of(g)?;
    ck!(g.is_undirected(), "graph is no longer undirected");
    eq("edge_count of undirected graph", g.edge_count(), set.len() as u64)?;
    let m = Model { und: true, n: g.vertex_count(), e: set };
    for &(a, b) in &m.e {
        ck!(m.e.contains(&(b, a)), "edge ({a}, {b}) has no reverse");
        ck!(a < m.n && b < m.n, "edge ({a}, {b}) outside {} vertices", m.n);
        ck!(
            g.does_edge_exist(a, b) && g.does_edge_exist(b, a),
            "edge ({a}, {b}) does not exist both ways"
        );
    }
    for &v in views::universe(&m, ids, 24).iter() {
        let mut o = g.get_vertex_out_edges(v);
        let mut i = g.get_vertex_in_edges(v);
        o.sort_unstable();
        i.sort_unstable();
        eq(&format!("in/out edges of {v}"), &i, &o)?;
        eq(&format!("in/out degree of {v}"), g.get_vertex_in_degree(v), g.get_vertex_out_degree(v))?;
        eq(&format!("degree of {v}"), g.get_vertex_out_degree(v), o.len() as u64)?;
        for &w in ids.iter().take(8) {
            ck!(
                g.does_edge_exist(v, w) == g.does_edge_exist(w, v),
                "({v}, {w}) exists in one direction only"
            );
        }
    }
    Ok(())
}

impl Prop for P02 {
    type Case = C02;
    const ID: &'static str = "P02";
    const RULE: &'static str = "A case is an undirected graph taken through a chain of edits, byte round trips, approximations, compressions and matrix conversions, with symmetry of every view checked after each step, plus a matrix that is or is not symmetric offered for conversion, plus the same edits on a directed graph compared with a model without mirroring. Non-trivial: the graph has an edge between distinct vertices and at least one derivation step or deletion ran.";
    fn cases(t: Tier) -> u64 {
        if t == Tier::Quick { 160_000 } else { 2_000_000 }
    }
    fn strategy(_: Tier) -> BoxedStrategy<C02> {
        c02(graph_spec(), 1..6, 300)
    }
    fn large() -> Option<BoxedStrategy<C02>> {
        Some(c02(large_spec(), 0..4, 1))
    }
    fn check(c: &C02, ctx: &mut Ctx) -> Res {
        check02(c, ctx)
    }
}

fn c02(spec: BoxedStrategy<GraphSpec>, steps: std::ops::Range<usize>, crowds: u32) -> BoxedStrategy<C02> {
        let step = prop_oneof![
            4 => edits(1..12).prop_map(Step::Edit),
            1 => any::<u64>().prop_map(Step::Bytes),
            2 => (prop_oneof![4 => 2u64..12, 1 => any_id()], threshold_bits()).prop_map(|(b, t)| Step::Approx(b, t)),
            2 => (0u8..66).prop_map(Step::Compress),
            1 => (0u8..66, any::<u64>()).prop_map(|(l, o)| Step::CompressedBytes(l, o)),
            1 => Just(Step::Matrix),
            1 => Just(Step::Clone),
        ];
        boxed(
            (
                spec,
                palette(),
                vec(step, steps),
                palette(),
                vec((any::<u8>(), any::<u8>()), 0..14),
                any::<bool>(),
                prop_oneof![1 => Just(None), 1 => any::<u8>().prop_map(Some)],
                prop_oneof![
                    crowds => Just(None),
                    1 => (any_id(), 1u64..70, (5u32..14).prop_flat_map(|k| 1u16 << k..2u16 << k), any::<u8>())
                        .prop_map(Some)
                ],
            )
                .prop_map(|(mut start, ids, steps, p, e, mirror, drop, crowd)| {
                    start.und = true;
                    C02 {
                        crowd,
                        start,
                        ids,
                        steps,
                        entries: e
                            .into_iter()
                            .map(|(a, b)| (p[a as usize % p.len()], p[b as usize % p.len()]))
                            .collect(),
                        mirror,
                        drop,
                    }
                }),
        )
}

fn check02(c: &C02, ctx: &mut Ctx) -> Res {
        let mut g = c.start.graph();
        symmetric(&g, &c.ids).map_err(|e| format!("at the start: {e}"))?;
        let proper = views::edges_of(&g)?.iter().any(|(a, b)| a != b);
        for (i, s) in c.steps.iter().enumerate() {
            let m = Model { und: true, n: g.vertex_count(), e: views::edges_of(&g)? };
            match s {
                Step::Edit(ops) => {
                    let pool = pool_of(&c.ids, &m);
                    for op in ops.iter().flat_map(|raw| resolve_in(raw, &pool, &m)) {
                        op.on_graph(&mut g);
                        if let GOp::Edge(a, b) | GOp::Del(a, b) = op {
                            let want = matches!(op, GOp::Edge(..));
                            for (x, y) in [(a, b), (b, a)] {
                                ck!(
                                    g.does_edge_exist(x, y) == want,
                                    "step {i}: after {op:?} edge ({x}, {y}) existence is {}",
                                    !want
                                );
                            }
                            ctx.nontrivial |= !want && proper;
                        }
                    }
                    ctx.label("edits");
                }
                Step::Bytes(_) => {
                    let b = g.to_bytes().map_err(|e| format!("to_bytes: {e:?}"))?;
                    g = Graph::try_from(b.as_slice()).map_err(|e| format!("step {i}: reload: {e:?}"))?;
                    ctx.nontrivial |= proper;
                    ctx.label("byte round trip");
                }
                Step::Approx(b, t) => {
                    g = g.approximate(*b, f64::from_bits(*t));
                    ctx.nontrivial |= proper;
                    ctx.label("approximation");
                }
                Step::Compress(l) => {
                    let k = g.compress(*l);
                    ck!(k.is_undirected(), "step {i}: compression lost the direction");
                    for &(a, b) in m.e.iter().take(200) {
                        ck!(
                            k.does_edge_exist(a, b) == k.does_edge_exist(b, a),
                            "step {i}: compressed graph has ({a}, {b}) in one direction only"
                        );
                    }
                    g = k.decompress();
                    ctx.nontrivial |= proper;
                    ctx.label("compression");
                }
                Step::CompressedBytes(l, _) => {
                    let b = g.compress(*l).to_bytes().map_err(|e| format!("to_bytes: {e:?}"))?;
                    let k = CompressedGraph::try_from(b.as_slice()).map_err(|e| format!("step {i}: reload: {e:?}"))?;
                    g = k.decompress();
                    ctx.nontrivial |= proper;
                    ctx.label("compressed byte round trip");
                }
                Step::Matrix => {
                    let mut a = CsrAdjacencyMatrix::new();
                    for &(x, y) in &m.e {
                        a.set_entry(1, x, y);
                    }
                    g = Graph::undirected_from(a).map_err(|e| format!("step {i}: undirected_from: {e:?}"))?;
                    ctx.label("matrix conversion");
                }
                Step::Clone => g = g.clone(),
            }
            symmetric(&g, &c.ids).map_err(|e| format!("after step {i} {s:?}: {e}"))?;
        }

        // Conversion succeeds exactly on symmetric matrices.
        let mut a = CsrAdjacencyMatrix::new();
        let mut set = BTreeSet::new();
        let mut n = 0;
        for &(x, y) in &c.entries {
            for (x, y) in if c.mirror { vec![(x, y), (y, x)] } else { vec![(x, y)] } {
                a.set_entry(1, x, y);
                set.insert((x, y));
                n = n.max(x.max(y) + 1);
            }
        }
        for &(x, y) in c.crowd.iter().flat_map(crowd).collect::<Vec<_>>().iter() {
            for (x, y) in [(x, y), (y, x)] {
                a.set_entry(1, x, y);
                set.insert((x, y));
                n = n.max(x.max(y) + 1);
            }
        }
        if let (Some(d), false) = (c.drop, c.entries.is_empty()) {
            let (x, y) = c.entries[d as usize % c.entries.len()];
            a.zero_entry(x, y);
            set.remove(&(x, y));
        }
        ctx.label_if(set.len() > 1000, "more than 1000 entries offered");
        let sym = set.iter().all(|&(x, y)| set.contains(&(y, x)));
        ctx.label_if(!set.is_empty() && sym, "symmetric matrix offered");
        ctx.label_if(!sym, "asymmetric matrix offered");
        match Graph::undirected_from(a.clone()) {
            Ok(g) => {
                ck!(sym, "undirected_from accepts an asymmetric matrix of {} entries: {:?}", set.len(), set.iter().take(12).collect::<Vec<_>>());
                views::full(&Model { und: true, n, e: set.clone() }, &g, &c.ids)
                    .map_err(|e| format!("undirected_from: {e}"))?;
                symmetric(&g, &c.ids)?;
            }
            Err(graphrox::error::GraphRoxError::InvalidFormat(_)) => {
                ck!(!sym, "undirected_from rejects a symmetric matrix of {} entries: {:?}", set.len(), set.iter().take(12).collect::<Vec<_>>())
            }
            Err(e) => return Err(format!("undirected_from: unexpected error {e:?}")),
        }
        views::full(&Model { und: false, n, e: set }, &Graph::directed_from(a), &c.ids)
            .map_err(|e| format!("directed_from: {e}"))?;

        // The same edits on a directed graph are not mirrored.
        let d = GraphSpec { und: false, ops: c.start.ops.clone() };
        let (dm, dg) = d.both();
        views::light(&dm, &dg, &dm.e.iter().copied().take(60).collect::<Vec<_>>())
            .map_err(|e| format!("directed graph: {e}"))?;
        if !dm.is_symmetric() {
            for lvl in [1u8] {
                let back = dg.compress(lvl).decompress();
                views::light(&dm, &back, &dm.e.iter().copied().take(60).collect::<Vec<_>>())
                    .map_err(|e| format!("directed graph through compression: {e}"))?;
            }
            let b = dg.to_bytes().map_err(|e| format!("to_bytes: {e:?}"))?;
            let back = Graph::try_from(b.as_slice()).map_err(|e| format!("reload directed: {e:?}"))?;
            views::light(&dm, &back, &dm.e.iter().copied().take(60).collect::<Vec<_>>())
                .map_err(|e| format!("directed graph through bytes: {e}"))?;
            ctx.label("asymmetric directed graph");
        }
        Ok(())
}

pub struct P03;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum IOp {
    New(GraphSpec),
    Edit(u8, Vec<RawOp>),
    Clone(u8),
    /// The first becomes a clone of the second, if they are of one type.
    CloneFrom(u8, u8),
    /// A graph of a copy of a matrix.
    Wrap(u8),
    Approx(u8, u64, u64),
    Compress(u8, u8),
    Decompress(u8),
    Pool(u8, u64),
    Bytes(u8),
    Load(u8),
    MatrixEdit(u8, bool, u64, u64),
    Drop(u8),
    Query(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C03 {
    first: GraphSpec,
    ids: Vec<u64>,
    ops: Vec<IOp>,
}

#[derive(Clone)]
enum Obj {
    G(Graph),
    C(CompressedGraph),
    M(CsrSquareMatrix<f64>),
    A(CsrAdjacencyMatrix),
    B(Vec<u8>, bool),
}

/// Everything a user can observe about an object, in a canonical order.
#[derive(PartialEq, Debug, Clone)]
struct Seen {
    kind: &'static str,
    nums: Vec<u64>,
    edges: Vec<(u64, u64)>,
    derived: Vec<(u64, u64, u64)>,
    lists: BTreeMap<u64, (Vec<u64>, Vec<u64>, u64, u64)>,
    entries: Vec<(u64, u64, u64)>,
    text: Option<String>,
    bytes: Vec<Vec<u8>>,
}

fn chunks(b: &[u8], head: usize, each: usize) -> Vec<Vec<u8>> {
    let head = head.min(b.len());
    let mut v: Vec<Vec<u8>> = b[head..].chunks(each).map(|c| c.to_vec()).collect();
    v.sort_unstable();
    v.insert(0, b[..head].to_vec());
    v
}

/// The objects derived from a graph with a few fixed arguments, as (tag, column, row).
fn derived(g: &Graph, ids: &[u64]) -> Result<Vec<(u64, u64, u64)>, String> {
    let b = 2 + ids[0] % 7;
    let level = 1 + (ids[0] % 3) as u8;
    let mut v: Vec<(u64, u64, u64)> = g
        .find_avg_pool_matrix(b)
        .into_iter()
        .map(|(x, c, r)| (x.to_bits(), c, r))
        .collect();
    v.extend(g.approximate(b, 0.25).into_iter().map(|(c, r)| (1, c, r)));
    let k = g.compress(level);
    let raw = k.to_bytes().map_err(|e| format!("{e:?}"))?;
    let word = |b: &[u8]| b.iter().fold(0, |a, &x| a << 8 | u64::from(x));
    v.extend(raw[42..].chunks(24).map(|t| (word(&t[..8]), word(&t[8..16]), word(&t[16..]))));
    v.push((2, k.edge_count(), k.vertex_count()));
    v.sort_unstable();
    Ok(v)
}

fn look(o: &Obj, ids: &[u64]) -> Result<Seen, String> {
    let mut s = Seen {
        kind: "",
        nums: vec![],
        edges: vec![],
        derived: vec![],
        lists: BTreeMap::new(),
        entries: vec![],
        text: None,
        bytes: vec![],
    };
    match o {
        Obj::G(g) => {
            s.kind = "graph";
            s.nums = vec![u64::from(g.is_undirected()), g.vertex_count(), g.edge_count()];
            s.edges = g.into_iter().collect();
            s.edges.sort_unstable();
            for &v in ids.iter().take(8).chain(s.edges.iter().take(6).map(|e| &e.1)) {
                let mut o = g.get_vertex_out_edges(v);
                let mut i = g.get_vertex_in_edges(v);
                o.sort_unstable();
                i.sort_unstable();
                s.lists.insert(v, (o, i, g.get_vertex_out_degree(v), g.get_vertex_in_degree(v)));
            }
            for &a in ids.iter().take(6) {
                for &b in ids.iter().take(6) {
                    s.entries.push((u64::from(g.does_edge_exist(a, b)), a, b));
                }
            }
            s.derived = derived(g, ids)?;
            s.bytes = chunks(&g.to_bytes().map_err(|e| format!("{e:?}"))?, 26, 16);
            if g.vertex_count() <= 30 {
                s.text = Some(g.matrix_string().map_err(|e| format!("{e:?}"))?);
            }
        }
        Obj::C(c) => {
            s.kind = "compressed graph";
            s.nums = vec![
                u64::from(c.is_undirected()),
                c.vertex_count(),
                c.edge_count(),
                u64::from(c.compression_level()),
            ];
            for &a in ids.iter().take(6) {
                for &b in ids.iter().take(6) {
                    s.entries.push((u64::from(c.does_edge_exist(a, b)), a, b));
                    s.entries.push((c.get_compressed_matrix_entry(a / 8, b / 8), a, b));
                }
            }
            s.bytes = chunks(&c.to_bytes().map_err(|e| format!("{e:?}"))?, 42, 24);
            if c.vertex_count() <= 80 {
                s.text = Some(c.matrix_string().map_err(|e| format!("{e:?}"))?);
            }
            s.edges = (&c.decompress()).into_iter().collect();
            s.edges.sort_unstable();
        }
        Obj::M(m) => {
            s.kind = "pool matrix";
            s.nums = vec![m.dimension(), m.entry_count()];
            s.entries = m.into_iter().map(|(v, c, r)| (v.to_bits(), c, r)).collect();
            s.entries.sort_unstable();
            for &a in ids.iter().take(4) {
                s.entries.push((m.get_entry(a / 4, a / 4).to_bits(), a, a));
            }
            if m.dimension() <= 20 {
                s.text = Some(m.to_string());
            }
        }
        Obj::A(a) => {
            s.kind = "adjacency matrix";
            s.nums = vec![a.dimension(), a.entry_count()];
            s.edges = a.into_iter().collect();
            s.edges.sort_unstable();
            for &v in ids.iter().take(8) {
                let mut o = a.get_sparse_col_vector(v);
                let mut i = a.get_sparse_row_vector(v);
                o.sort_unstable();
                i.sort_unstable();
                s.lists.insert(v, (o, i, a.col_nonzero_entry_count(v), a.row_nonzero_entry_count(v)));
            }
        }
        Obj::B(b, _) => {
            s.kind = "bytes";
            s.bytes = vec![b.clone()];
        }
    }
    Ok(s)
}

impl Prop for P03 {
    type Case = C03;
    const ID: &'static str = "P03";
    const RULE: &'static str = "A case interleaves edits, clones, derivations, reloads and drops over several live graphs, compressed graphs, matrices and byte strings; after every operation every live object except the edited one must look exactly as before (all views), a clone must look like its source, and looking twice must give the same answer. Non-trivial: an object that has a live clone or derived object is edited.";
    fn cases(t: Tier) -> u64 {
        if t == Tier::Quick { 144_000 } else { 1_800_000 }
    }
    fn strategy(_: Tier) -> BoxedStrategy<C03> {
        c03(|| prop_oneof![small_graph_spec(24), graph_spec()].boxed(), 2..14)
    }
    fn large() -> Option<BoxedStrategy<C03>> {
        Some(c03(large_spec, 1..6))
    }
    fn check(c: &C03, ctx: &mut Ctx) -> Res {
        check03(c, ctx)
    }
}

fn c03(spec: fn() -> BoxedStrategy<GraphSpec>, len: std::ops::Range<usize>) -> BoxedStrategy<C03> {
        let op = prop_oneof![
            1 => spec().prop_map(IOp::New),
            8 => (any::<u8>(), edits(1..8)).prop_map(|(i, o)| IOp::Edit(i, o)),
            4 => any::<u8>().prop_map(IOp::Clone),
            3 => (any::<u8>(), any::<u8>()).prop_map(|(i, j)| IOp::CloneFrom(i, j)),
            1 => any::<u8>().prop_map(IOp::Wrap),
            1 => (any::<u8>(), 0u64..12, threshold_bits()).prop_map(|(i, b, t)| IOp::Approx(i, b, t)),
            2 => (any::<u8>(), 0u8..70).prop_map(|(i, l)| IOp::Compress(i, l)),
            1 => any::<u8>().prop_map(IOp::Decompress),
            1 => (any::<u8>(), 0u64..12).prop_map(|(i, b)| IOp::Pool(i, b)),
            1 => any::<u8>().prop_map(IOp::Bytes),
            1 => any::<u8>().prop_map(IOp::Load),
            3 => (any::<u8>(), any::<bool>(), 0u64..20, 0u64..20).prop_map(|(i, s, a, b)| IOp::MatrixEdit(i, s, a, b)),
            1 => any::<u8>().prop_map(IOp::Drop),
            1 => any::<u8>().prop_map(IOp::Query),
        ];
        boxed(
            (spec(), palette(), vec(op, len))
                .prop_map(|(first, ids, ops)| C03 { first, ids, ops }),
        )
}

fn check03(c: &C03, ctx: &mut Ctx) -> Res {
        let ids = {
            let mut v = c.ids.clone();
            v.extend(0..4);
            v
        };
        let mut live: Vec<(Obj, Seen, bool)> = Vec::new();
        let push = |live: &mut Vec<(Obj, Seen, bool)>, o: Obj| -> Res {
            let s = look(&o, &ids)?;
            if live.len() >= 6 {
                live.remove(0);
            }
            live.push((o, s, false));
            Ok(())
        };
        push(&mut live, Obj::G(c.first.graph()))?;
        // A free-standing adjacency matrix with the same edges.
        let m0 = c.first.model();
        let mut a0 = CsrAdjacencyMatrix::new();
        for &(x, y) in m0.e.iter().take(50) {
            a0.set_entry(1, x, y);
        }
        push(&mut live, Obj::A(a0))?;
        for (step, op) in c.ops.iter().enumerate() {
            if live.is_empty() {
                push(&mut live, Obj::G(c.first.graph()))?;
            }
            let pick = |i: u8| i as usize % live.len();
            let mut edited = None;
            let mut made: Option<Obj> = None;
            let mut of = None;
            match op {
                IOp::New(s) => made = Some(Obj::G(s.graph())),
                IOp::Edit(i, ops) => {
                    let i = pick(*i);
                    if let Obj::G(g) = &mut live[i].0 {
                        let m = Model { und: g.is_undirected(), n: g.vertex_count(), e: views::edges_of(g)? };
                        let pool = pool_of(&c.ids, &m);
                        for op in ops.iter().flat_map(|raw| resolve_in(raw, &pool, &m)) {
                            op.on_graph(g);
                        }
                        edited = Some(i);
                    }
                }
                IOp::Clone(i) => {
                    let i = pick(*i);
                    let o = live[i].0.clone();
                    eq("a clone's observable state", &look(&o, &ids)?, &live[i].1)
                        .map_err(|e| format!("step {step} {op:?}: {e}"))?;
                    made = Some(o);
                    of = Some(i);
                }
                IOp::CloneFrom(i, j) => {
                    // The nearest of the same type, if there is one.
                    let (i, j) = (pick(*i), pick(*j));
                    let kind = std::mem::discriminant(&live[i].0);
                    let j = (0..live.len())
                        .map(|k| (j + k) % live.len())
                        .find(|&k| k != i && std::mem::discriminant(&live[k].0) == kind);
                    if let Some(j) = j {
                        let source = live[j].0.clone();
                        let same = match (&mut live[i].0, &source) {
                            (Obj::G(a), Obj::G(b)) => { a.clone_from(b); true }
                            (Obj::C(a), Obj::C(b)) => { a.clone_from(b); true }
                            (Obj::M(a), Obj::M(b)) => { a.clone_from(b); true }
                            (Obj::A(a), Obj::A(b)) => { a.clone_from(b); true }
                            _ => false,
                        };
                        if same {
                            eq("the observable state after clone_from", &look(&live[i].0, &ids)?, &live[j].1)
                                .map_err(|e| format!("step {step} {op:?}: {e}"))?;
                            ctx.label("becomes a clone of another object");
                            live[j].2 = true;
                            edited = Some(i);
                        }
                    }
                }
                IOp::Wrap(i) => {
                    let i = pick(*i);
                    if let Obj::A(a) = &live[i].0 {
                        made = Some(Obj::G(Graph::directed_from(a.clone())));
                        of = Some(i);
                    }
                }
                IOp::Approx(i, b, t) => {
                    let i = pick(*i);
                    if let Obj::G(g) = &live[i].0 {
                        made = Some(Obj::G(g.approximate(*b, f64::from_bits(*t))));
                        of = Some(i);
                    }
                }
                IOp::Compress(i, l) => {
                    let i = pick(*i);
                    if let Obj::G(g) = &live[i].0 {
                        made = Some(Obj::C(g.compress(*l)));
                        of = Some(i);
                    }
                }
                IOp::Decompress(i) => {
                    let i = pick(*i);
                    if let Obj::C(k) = &live[i].0 {
                        made = Some(Obj::G(k.decompress()));
                        of = Some(i);
                    }
                }
                IOp::Pool(i, b) => {
                    let i = pick(*i);
                    if let Obj::G(g) = &live[i].0 {
                        made = Some(Obj::M(g.find_avg_pool_matrix(*b)));
                        of = Some(i);
                    }
                }
                IOp::Bytes(i) => {
                    let i = pick(*i);
                    of = Some(i);
                    made = match &live[i].0 {
                        Obj::G(g) => Some(Obj::B(g.to_bytes().map_err(|e| format!("{e:?}"))?, false)),
                        Obj::C(k) => Some(Obj::B(k.to_bytes().map_err(|e| format!("{e:?}"))?, true)),
                        _ => None,
                    };
                }
                IOp::Load(i) => {
                    let i = pick(*i);
                    if let Obj::B(b, compressed) = &live[i].0 {
                        of = Some(i);
                        made = Some(if *compressed {
                            Obj::C(CompressedGraph::try_from(b.as_slice()).map_err(|e| format!("reload: {e:?}"))?)
                        } else {
                            Obj::G(Graph::try_from(b.as_slice()).map_err(|e| format!("reload: {e:?}"))?)
                        });
                    }
                }
                IOp::MatrixEdit(i, set, x, y) => {
                    let i = pick(*i);
                    match &mut live[i].0 {
                        Obj::M(m) => {
                            if *set {
                                m.set_entry(0.625, *x, *y);
                            } else {
                                m.zero_entry(*x, *y);
                            }
                            m.increment_entry(*y, *x);
                            edited = Some(i);
                        }
                        Obj::A(a) => {
                            if *set {
                                a.set_entry(1, *x, *y);
                            } else {
                                a.zero_entry(*x, *y);
                            }
                            edited = Some(i);
                        }
                        _ => {}
                    }
                }
                IOp::Drop(i) => {
                    let i = pick(*i);
                    live.remove(i);
                }
                IOp::Query(i) => {
                    let i = pick(*i);
                    let s = look(&live[i].0, &ids)?;
                    eq("a repeated look", &s, &live[i].1).map_err(|e| format!("step {step}: {e}"))?;
                }
            }
            if let Some(i) = edited {
                if live[i].2 {
                    ctx.nontrivial = true;
                    ctx.label("edits an object with live relatives");
                }
                live[i].1 = look(&live[i].0, &ids)?;
            }
            for (k, (o, s, _)) in live.iter().enumerate() {
                let now = look(o, &ids)?;
                if now != *s {
                    return Err(format!(
                        "step {step} {}: object {k} ({}) changed without being edited: was {} now {}",
                        views::brief(op),
                        s.kind,
                        views::brief(s),
                        views::brief(&now)
                    ));
                }
            }
            if let Some(o) = made {
                if let Some(i) = of {
                    live[i].2 = true;
                }
                ctx.label(match &o {
                    Obj::G(_) => "makes a graph",
                    Obj::C(_) => "makes a compressed graph",
                    Obj::M(_) => "makes a pool matrix",
                    Obj::A(_) => "makes an adjacency matrix",
                    Obj::B(..) => "makes bytes",
                });
                push(&mut live, o)?;
                if of.is_some() {
                    if let Some(l) = live.last_mut() {
                        l.2 = true;
                    }
                }
            }
        }
        Ok(())
}
