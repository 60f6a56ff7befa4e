//! P27 (Rust) and P28 (C): several threads at once.
//!
//! A case has shared values (graphs and what is derived from them), which no thread changes,
//! and a script for each thread, which asks about the shared values and makes, changes and
//! asks about values of its own. Every script is first run alone; then all of them run at the
//! same time, over and over, and every answer must be the one it got alone. A second part
//! passes one set of values from thread to thread: a history whose operations are carried out
//! by different threads, one after the other, must read as if one thread had done it all.
use crate::fw::{boxed, no_panic, Ctx, Prop, Res, Tier};
use crate::gen::*;
use crate::model::Model;
use crate::props::capi::{self, CLib};
use crate::views::{brief, ck};
use graphrox::builder::CompressedGraphBuilder;
use graphrox::error::GraphRoxError;
use graphrox::matrix::{CsrAdjacencyMatrix, CsrSquareMatrix, MatrixRepresentation};
use graphrox::{CompressedGraph, Graph, GraphRepresentation};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::marker::PhantomData;
use std::sync::atomic::{AtomicI32, AtomicUsize, Ordering};
use std::sync::{mpsc, Arc, Condvar, Mutex};
use std::time::Duration;

/// An answer: numbers, in an order that does not depend on hashing.
pub type Ans = Vec<u64>;

/// A way to reach the library. Failures of the interface itself are `Err`.
pub trait Lib: 'static {
    type G: 'static;
    type C: 'static;
    type M: 'static;
    type A: 'static;
    fn fresh(und: bool) -> Result<Self::G, String>;
    fn dup(g: &Self::G) -> Result<Self::G, String>;
    fn edge(g: &mut Self::G, a: u64, b: u64);
    fn del(g: &mut Self::G, a: u64, b: u64);
    fn vertex(g: &mut Self::G, v: u64, to: &[u64]);
    /// What a graph answers: `kind` below `GRAPH_KINDS`.
    fn ask(g: &Self::G, kind: u8, a: u64, b: u64) -> Result<Ans, String>;
    fn compress(g: &Self::G, level: u8) -> Result<Self::C, String>;
    fn dup_c(c: &Self::C) -> Result<Self::C, String>;
    fn decompress(c: &Self::C) -> Result<Self::G, String>;
    fn ask_c(c: &Self::C, kind: u8, a: u64, b: u64) -> Result<Ans, String>;
    fn pool(g: &Self::G, b: u64) -> Result<Self::M, String>;
    fn dup_m(m: &Self::M) -> Result<Self::M, String>;
    fn ask_m(m: &Self::M, kind: u8, a: u64, b: u64) -> Result<Ans, String>;
    fn approximate(g: &Self::G, b: u64, t: f64) -> Result<Self::G, String>;
    fn load(bytes: &[u8]) -> Result<Option<Self::G>, String>;
    fn load_c(bytes: &[u8]) -> Result<Option<Self::C>, String>;
    fn bytes(g: &Self::G) -> Result<Vec<u8>, String>;
    fn bytes_c(c: &Self::C) -> Result<Vec<u8>, String>;
    /// Matrices filled in by the caller (Rust only).
    fn adjacency(_g: &Self::G) -> Option<Self::A> {
        None
    }
    fn set(_a: &mut Self::A, _m: &mut Option<Self::M>, _kind: u8, _col: u64, _row: u64) {}
    fn ask_a(_a: &Self::A, _kind: u8, _a1: u64, _b: u64) -> Result<Ans, String> {
        Ok(vec![])
    }
    fn before() {}
    fn after() -> Res {
        Ok(())
    }
}

pub const GRAPH_KINDS: u8 = 9;
pub const COMPRESSED_KINDS: u8 = 5;
pub const MATRIX_KINDS: u8 = 5;
pub const ADJACENCY_KINDS: u8 = 8;
/// The largest dimension that is drawn as text.
pub const DRAWN: u64 = 40;

fn sorted(mut v: Vec<u64>) -> Ans {
    v.sort_unstable();
    v
}

pub fn pairs(mut v: Vec<(u64, u64)>) -> Ans {
    v.sort_unstable();
    v.into_iter().flat_map(|(a, b)| [a, b]).collect()
}

pub fn triples(mut v: Vec<(u64, u64, u64)>) -> Ans {
    v.sort_unstable();
    v.into_iter().flat_map(|(a, b, c)| [a, b, c]).collect()
}

/// A header and records in any order.
pub fn packed(b: &[u8], head: usize, size: usize) -> Ans {
    let head = head.min(b.len());
    let mut v: Vec<&[u8]> = b[head..].chunks(size).collect();
    v.sort_unstable();
    let mut out = vec![b.len() as u64];
    out.extend(b[..head].iter().map(|&x| u64::from(x)));
    for r in v {
        out.extend(r.chunks(8).map(|w| w.iter().fold(0u64, |a, &x| a << 8 | u64::from(x))));
    }
    out
}

pub fn text(s: &[u8]) -> Ans {
    packed(s, s.len(), 1)
}

pub struct RustLib;

impl Lib for RustLib {
    type G = Graph;
    type C = CompressedGraph;
    type M = CsrSquareMatrix<f64>;
    type A = CsrAdjacencyMatrix;
    fn fresh(und: bool) -> Result<Graph, String> {
        Ok(new_graph(und))
    }
    fn dup(g: &Graph) -> Result<Graph, String> {
        Ok(g.clone())
    }
    fn edge(g: &mut Graph, a: u64, b: u64) {
        g.add_edge(a, b)
    }
    fn del(g: &mut Graph, a: u64, b: u64) {
        g.delete_edge(a, b)
    }
    fn vertex(g: &mut Graph, v: u64, to: &[u64]) {
        g.add_vertex(v, if to.is_empty() { None } else { Some(to) })
    }
    fn ask(g: &Graph, kind: u8, a: u64, b: u64) -> Result<Ans, String> {
        Ok(match kind {
            0 => vec![u64::from(g.is_undirected()), g.vertex_count(), g.edge_count()],
            1 => vec![g.get_vertex_in_degree(a)],
            2 => vec![g.get_vertex_out_degree(a)],
            3 => sorted(g.get_vertex_in_edges(a)),
            4 => sorted(g.get_vertex_out_edges(a)),
            5 => vec![u64::from(g.does_edge_exist(a, b))],
            6 => pairs(g.into_iter().collect()),
            7 => packed(&Self::bytes(g)?, 26, 16),
            _ if g.vertex_count() <= DRAWN => text(g.matrix_string().map_err(|e| format!("{e:?}"))?.as_bytes()),
            _ => vec![],
        })
    }
    fn compress(g: &Graph, level: u8) -> Result<CompressedGraph, String> {
        Ok(g.compress(level))
    }
    fn dup_c(c: &CompressedGraph) -> Result<CompressedGraph, String> {
        Ok(c.clone())
    }
    fn decompress(c: &CompressedGraph) -> Result<Graph, String> {
        Ok(c.decompress())
    }
    fn ask_c(c: &CompressedGraph, kind: u8, a: u64, b: u64) -> Result<Ans, String> {
        Ok(match kind {
            0 => vec![u64::from(c.is_undirected()), c.vertex_count(), c.edge_count(), u64::from(c.compression_level())],
            1 => vec![u64::from(c.does_edge_exist(a, b))],
            2 => vec![c.get_compressed_matrix_entry(a / 8, b / 8)],
            3 => packed(&Self::bytes_c(c)?, 42, 24),
            _ if c.vertex_count() <= 8 * DRAWN => text(c.matrix_string().map_err(|e| format!("{e:?}"))?.as_bytes()),
            _ => vec![],
        })
    }
    fn pool(g: &Graph, b: u64) -> Result<Self::M, String> {
        Ok(g.find_avg_pool_matrix(b))
    }
    fn dup_m(m: &Self::M) -> Result<Self::M, String> {
        Ok(m.clone())
    }
    fn ask_m(m: &Self::M, kind: u8, a: u64, b: u64) -> Result<Ans, String> {
        let drawn = m.dimension() <= DRAWN;
        Ok(match kind {
            0 => vec![m.dimension(), m.entry_count()],
            1 => vec![m.get_entry(a, b).to_bits()],
            2 => triples(m.into_iter().map(|(v, c, r)| (c, r, v.to_bits())).collect()),
            3 if drawn => text(m.to_string().as_bytes()),
            4 if drawn => text(m.to_string_with_precision(a as usize % 20).map_err(|e| format!("{e:?}"))?.as_bytes()),
            _ => vec![],
        })
    }
    fn approximate(g: &Graph, b: u64, t: f64) -> Result<Graph, String> {
        Ok(g.approximate(b, t))
    }
    fn load(bytes: &[u8]) -> Result<Option<Graph>, String> {
        Ok(Graph::try_from(bytes).ok())
    }
    fn load_c(bytes: &[u8]) -> Result<Option<CompressedGraph>, String> {
        Ok(CompressedGraph::try_from(bytes).ok())
    }
    fn bytes(g: &Graph) -> Result<Vec<u8>, String> {
        g.to_bytes().map_err(|e| format!("{e:?}"))
    }
    fn bytes_c(c: &CompressedGraph) -> Result<Vec<u8>, String> {
        c.to_bytes().map_err(|e| format!("{e:?}"))
    }
    fn adjacency(g: &Graph) -> Option<CsrAdjacencyMatrix> {
        let mut a = CsrAdjacencyMatrix::new();
        for (c, r) in g {
            a.set_entry(1, c, r);
        }
        Some(a)
    }
    fn set(a: &mut CsrAdjacencyMatrix, m: &mut Option<Self::M>, kind: u8, col: u64, row: u64) {
        match (kind % 5, m) {
            (0, _) => a.set_entry(1, col, row),
            (1, _) => a.zero_entry(col, row),
            (2, Some(m)) => m.set_entry(f64::from(kind) / 16.0, col, row),
            (3, Some(m)) => m.increment_entry(col, row),
            (_, Some(m)) => m.zero_entry(col, row),
            _ => {}
        }
    }
    fn ask_a(a: &CsrAdjacencyMatrix, kind: u8, v: u64, w: u64) -> Result<Ans, String> {
        Ok(match kind {
            0 => vec![a.dimension(), a.entry_count()],
            1 => vec![u64::from(a.get_entry(v, w))],
            2 => sorted(a.get_sparse_col_vector(v)),
            3 => sorted(a.get_sparse_row_vector(v)),
            4 => vec![a.col_nonzero_entry_count(v), a.row_nonzero_entry_count(v)],
            5 => pairs(a.into_iter().collect()),
            6 if a.dimension() <= DRAWN => text(a.to_string().as_bytes()),
            7 => {
                let u = Graph::undirected_from(a.clone());
                let d = Graph::directed_from(a.clone());
                vec![u64::from(u.is_ok()), d.edge_count(), d.get_vertex_in_degree(v)]
            }
            _ => vec![],
        })
    }
}

// ---------------------------------------------------------------- scripts

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum TOp {
    /// A question about the values of a shared set.
    Shared(u8, Q),
    /// Start over with a duplicate of the shared graph of a set, or with an empty graph.
    Take(u8),
    Fresh(bool),
    Edge(u8, u8),
    Del(u8, u8),
    Vertex(u8, Vec<u8>),
    Set(u8, u8, u8),
    /// Keep something derived from the own graph; the graph, derived back.
    Keep(u8, u8),
    Own(Q),
}

/// (what, kind, two positions in the pool of IDs, a selector).
pub type Q = (u8, u8, u8, u8, u8);

/// A set of values of which each is derived from the first.
struct Set<L: Lib> {
    g: L::G,
    c: L::C,
    m: L::M,
    a: Option<L::A>,
    bytes: Vec<u8>,
    bytes_c: Vec<u8>,
}

struct Own<L: Lib> {
    g: L::G,
    c: Option<L::C>,
    m: Option<L::M>,
    a: Option<L::A>,
}

impl<L: Lib> Own<L> {
    fn new(g: L::G) -> Self {
        Own { g, c: None, m: None, a: None }
    }
}

fn digest<L: Lib>(g: &L::G) -> Result<Ans, String> {
    let mut v = L::ask(g, 0, 0, 0)?;
    v.extend(L::ask(g, 6, 0, 0)?);
    Ok(v)
}

fn digest_c<L: Lib>(c: &L::C) -> Result<Ans, String> {
    let mut v = L::ask_c(c, 0, 0, 0)?;
    v.extend(L::ask_c(c, 3, 0, 0)?);
    Ok(v)
}

fn digest_m<L: Lib>(m: &L::M) -> Result<Ans, String> {
    let mut v = L::ask_m(m, 0, 0, 0)?;
    v.extend(L::ask_m(m, 2, 0, 0)?);
    Ok(v)
}

fn levels(x: u8) -> u8 {
    if x < 128 { 1 + x % 6 } else { x % 70 }
}

const KINDS: u8 = GRAPH_KINDS + COMPRESSED_KINDS + MATRIX_KINDS + ADJACENCY_KINDS + 9;

#[allow(clippy::too_many_arguments)]
fn question<L: Lib>(
    q: &Q,
    ids: &[u64],
    g: &L::G,
    c: Option<&L::C>,
    m: Option<&L::M>,
    a: Option<&L::A>,
    bytes: Option<(&[u8], &[u8])>,
) -> Result<Ans, String> {
    let at = |i: u8| ids[i as usize % ids.len()];
    let (x, y, s) = (at(q.2), at(q.3), q.4);
    let mut k = q.1 % KINDS;
    if k < GRAPH_KINDS {
        return L::ask(g, k, x, y);
    }
    k -= GRAPH_KINDS;
    if k < COMPRESSED_KINDS {
        return c.map_or(Ok(vec![]), |c| L::ask_c(c, k, x, y));
    }
    k -= COMPRESSED_KINDS;
    if k < MATRIX_KINDS {
        // Where entries are: near the origin.
        let (x, y) = if s % 2 == 0 { (u64::from(q.2 % 8), u64::from(q.3 % 8)) } else { (x, y) };
        return m.map_or(Ok(vec![]), |m| L::ask_m(m, k, x, y));
    }
    k -= MATRIX_KINDS;
    if k < ADJACENCY_KINDS {
        return a.map_or(Ok(vec![]), |a| L::ask_a(a, k, x, y));
    }
    k -= ADJACENCY_KINDS;
    let b = if s < 128 { 1 + u64::from(s % 12) } else { x };
    match k {
        0 => digest_c::<L>(&L::compress(g, levels(s))?),
        1 => digest_m::<L>(&L::pool(g, b)?),
        2 => digest::<L>(&L::approximate(g, b, f64::from(q.2) / 200.0)?),
        3 => {
            let d = L::dup(g)?;
            let v = digest::<L>(&d)?;
            drop(d);
            L::ask(g, 1 + s % 5, x, y).map(|w| [v, w].concat())
        }
        4 => c.map_or(Ok(vec![]), |c| digest::<L>(&L::decompress(c)?)),
        5 => c.map_or(Ok(vec![]), |c| digest_c::<L>(&L::dup_c(c)?)),
        6 => m.map_or(Ok(vec![]), |m| digest_m::<L>(&L::dup_m(m)?)),
        7 => {
            let Some((gb, _)) = bytes else { return Ok(vec![]) };
            let cut = if s % 3 == 0 { gb.len() - (q.2 as usize).min(gb.len()) } else { gb.len() };
            match L::load(&gb[..cut])? {
                Some(g) => digest::<L>(&g),
                None => Ok(vec![u64::MAX]),
            }
        }
        _ => {
            let Some((_, cb)) = bytes else { return Ok(vec![]) };
            let cut = if s % 3 == 0 { cb.len() - (q.2 as usize).min(cb.len()) } else { cb.len() };
            match L::load_c(&cb[..cut])? {
                Some(c) => digest_c::<L>(&c),
                None => Ok(vec![u64::MAX]),
            }
        }
    }
}

fn step<L: Lib>(op: &TOp, sets: &[Set<L>], ids: &[u64], own: &mut Own<L>) -> Result<Ans, String> {
    let at = |i: u8| ids[i as usize % ids.len()];
    let set = |i: u8| &sets[i as usize % sets.len()];
    match op {
        TOp::Shared(i, q) => {
            let s = set(*i);
            return question::<L>(q, ids, &s.g, Some(&s.c), Some(&s.m), s.a.as_ref(), Some((&s.bytes, &s.bytes_c)));
        }
        TOp::Take(i) => *own = Own::new(L::dup(&set(*i).g)?),
        TOp::Fresh(und) => *own = Own::new(L::fresh(*und)?),
        TOp::Edge(a, b) => L::edge(&mut own.g, at(*a), at(*b)),
        TOp::Del(a, b) => L::del(&mut own.g, at(*a), at(*b)),
        TOp::Vertex(v, to) => {
            let to: Vec<u64> = to.iter().map(|&t| at(t)).collect();
            L::vertex(&mut own.g, at(*v), &to)
        }
        TOp::Set(k, a, b) => {
            if own.a.is_none() {
                own.a = L::adjacency(&own.g);
            }
            if let Some(x) = &mut own.a {
                L::set(x, &mut own.m, *k, at(*a), at(*b));
            }
        }
        TOp::Keep(k, s) => match k % 5 {
            0 => own.c = Some(L::compress(&own.g, levels(*s))?),
            1 => own.m = Some(L::pool(&own.g, 1 + u64::from(s % 9))?),
            2 => own.a = L::adjacency(&own.g),
            3 => {
                if let Some(c) = &own.c {
                    own.g = L::decompress(c)?;
                }
            }
            _ => {
                let b = L::bytes(&own.g)?;
                own.g = L::load(&b)?.ok_or("own bytes were refused")?;
            }
        },
        TOp::Own(q) => return question::<L>(q, ids, &own.g, own.c.as_ref(), own.m.as_ref(), own.a.as_ref(), None),
    }
    Ok(vec![])
}

/// Lets a value cross threads whatever its type says; what the types say is checked apart.
struct Any<T>(T);
unsafe impl<T> Send for Any<T> {}
unsafe impl<T> Sync for Any<T> {}

// ---------------------------------------------------------------- cases

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    sets: Vec<(GraphSpec, u8, u8)>,
    extra: Vec<u64>,
    scripts: Vec<Vec<TOp>>,
    /// (thread, operation)
    relay: Vec<(u8, TOp)>,
}

fn q() -> BoxedStrategy<Q> {
    (any::<u8>(), any::<u8>(), any::<u8>(), any::<u8>(), any::<u8>()).boxed()
}

fn top() -> BoxedStrategy<TOp> {
    let i = any::<u8>;
    prop_oneof![
        10 => (i(), q()).prop_map(|(s, q)| TOp::Shared(s, q)),
        1 => i().prop_map(TOp::Take),
        1 => any::<bool>().prop_map(TOp::Fresh),
        4 => (i(), i()).prop_map(|(a, b)| TOp::Edge(a, b)),
        2 => (i(), i()).prop_map(|(a, b)| TOp::Del(a, b)),
        1 => (i(), vec(i(), 0..3)).prop_map(|(v, t)| TOp::Vertex(v, t)),
        1 => (i(), i(), i()).prop_map(|(k, a, b)| TOp::Set(k, a, b)),
        2 => (i(), i()).prop_map(|(k, s)| TOp::Keep(k, s)),
        8 => q().prop_map(TOp::Own),
    ]
    .boxed()
}

/// One thread asks the same before and after another has changed little: with edges among three
/// vertices, one is moved or comes or goes.
fn around() -> BoxedStrategy<Vec<(u8, TOp)>> {
    let p = || 0usize..3;
    let pair = move || (p(), p());
    (
        vec(any::<u8>(), 3),
        any::<u8>(),
        prop_oneof![2 => any::<u8>().prop_map(Some), 1 => Just(None)],
        vec(pair(), 1..4),
        prop_oneof![3 => 1u8..11, 1 => 0..KINDS],
        pair(),
        any::<u8>(),
        vec((0u8..6, pair(), p()), 1..3),
    )
        .prop_map(|(ids, seed, take, first, kind, (x, y), sel, edits)| {
            let at = |i: usize| ids[i];
            let ask = || TOp::Own((seed, kind, at(x), at(y), sel));
            let mut ops = vec![(0, take.map_or(TOp::Fresh(seed % 3 == 0), TOp::Take))];
            // All three vertices are there from the start.
            ops.extend(ids.iter().map(|&v| (seed / 4 % 2, TOp::Vertex(v, vec![]))));
            ops.extend(first.iter().map(|&(a, b)| (0, TOp::Edge(at(a), at(b)))));
            ops.push((0, ask()));
            for (how, (a, b), c) in edits {
                let (a, b, c) = (at(a), at(b), at(c));
                let mut e = match how {
                    0 => vec![TOp::Edge(a, b)],
                    1 => vec![TOp::Del(a, b)],
                    2 | 3 => vec![TOp::Del(a, b), TOp::Edge(a, c)],
                    _ => vec![TOp::Del(a, b), TOp::Edge(c, b)],
                };
                if how % 2 == 1 {
                    e.reverse();
                }
                ops.extend(e.into_iter().map(|o| (1, o)));
            }
            ops.push((seed % 2, ask()));
            ops.push((0, ask()));
            ops
        })
        .boxed()
}

fn case(max_threads: usize) -> BoxedStrategy<Case> {
    let spec = prop_oneof![3 => small_graph_spec(40), 3 => graph_spec()];
    let focus = prop_oneof![1 => Just(None), 3 => (0..KINDS).prop_map(Some)];
    let scripts = prop_oneof![
        vec(vec(top(), 1..7), 2..max_threads + 1),
        // Little else than the same kind of question, over and over.
        vec(vec((any::<u8>(), q()).prop_map(|(s, q)| TOp::Shared(s, q)), 1..3), 2..max_threads + 1),
    ];
    (
        vec((spec, any::<u8>(), any::<u8>()), 1..3),
        palette(),
        scripts,
        prop_oneof![1 => Just(vec![]), 1 => vec((0u8..3, top()), 2..16)],
        focus,
        q(),
        any::<u64>(),
        prop_oneof![3 => Just(vec![]), 2 => around()],
    )
        .prop_map(|(sets, extra, mut scripts, mut relay, focus, same, mut seed, around)| {
            // Most of the time most questions are of one kind, so that they meet.
            let Some(k) = focus else { return Case { sets, extra, scripts, relay: [around, relay].concat() } };
            let mut dice = || {
                seed = seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                seed >> 33 & 7
            };
            let only = scripts.iter().all(|s| s.len() < 3);
            for op in scripts.iter_mut().flatten() {
                if let TOp::Shared(_, q) | TOp::Own(q) = op {
                    if only || dice() > 1 {
                        q.1 = k;
                    }
                }
            }
            // Passed on, mostly: one question by one thread around what the others do about it.
            for (t, op) in &mut relay {
                match op {
                    TOp::Own(q) => {
                        let d = dice();
                        if d > 0 {
                            (q.1, *t) = (k, if d > 2 { 0 } else { *t });
                        }
                        if d > 1 {
                            (q.2, q.3, q.4) = (same.2, same.3, same.4);
                        }
                    }
                    TOp::Edge(a, b) | TOp::Del(a, b) | TOp::Set(_, a, b) => match dice() {
                        0 | 1 => *a = same.2,
                        2 | 3 => *b = same.2,
                        4 | 5 => (*a, *b) = (same.2, same.3),
                        _ => {}
                    },
                    _ => {}
                }
            }
            Case { sets, extra, scripts, relay: [around, relay].concat() }
        })
        .boxed()
}

/// Roughly how long an operation takes, in steps.
fn cost(op: &TOp, edges: usize) -> usize {
    const CHEAP: [u8; 12] = [0, 1, 2, 5, 9, 10, 11, 14, 15, 19, 20, 23];
    match op {
        TOp::Shared(_, q) | TOp::Own(q) if !CHEAP.contains(&(q.1 % KINDS)) => 10 + edges,
        TOp::Take(_) | TOp::Keep(..) => 10 + edges,
        _ => 2,
    }
}

fn build<L: Lib>(c: &Case) -> Result<(Vec<Set<L>>, Vec<u64>, usize), String> {
    let mut ids = Vec::new();
    let mut edges = 0;
    let mut sets = Vec::new();
    for (spec, l, b) in &c.sets {
        let m = spec.model();
        edges = edges.max(m.e.len());
        // Vertices with edges, mostly; a few others.
        let ends: Vec<u64> = m.e.iter().flat_map(|&(a, b)| [a, b]).collect();
        ids.extend(ends.iter().step_by((ends.len() / 10).max(1)).take(10));
        ids.push(m.n.wrapping_sub(1));
        let g = lib_graph::<L>(spec, &m)?;
        let comp = L::compress(&g, levels(*l))?;
        let pool = L::pool(&g, 1 + u64::from(b % 12))?;
        let a = L::adjacency(&g);
        let (bytes, bytes_c) = (L::bytes(&g)?, L::bytes_c(&comp)?);
        sets.push(Set { g, c: comp, m: pool, a, bytes, bytes_c });
    }
    ids.extend(c.extra.iter().take(3));
    ids.retain(|v| *v != u64::MAX);
    ids.push(0);
    Ok((sets, ids, edges))
}

fn lib_graph<L: Lib>(spec: &GraphSpec, m: &Model) -> Result<L::G, String> {
    let mut g = L::fresh(spec.und)?;
    for &(a, b) in &m.e {
        L::edge(&mut g, a, b);
    }
    if m.n > 0 {
        L::vertex(&mut g, m.n - 1, &[]);
    }
    Ok(g)
}

/// All answers of a script, from a fresh start.
fn script<L: Lib>(ops: &[TOp], sets: &[Set<L>], ids: &[u64]) -> Result<Vec<Ans>, String> {
    let mut own = Own::new(L::fresh(false)?);
    ops.iter().map(|o| step(o, sets, ids, &mut own)).collect()
}

struct Stress<L: Lib> {
    case: Case,
    sets: Vec<Set<L>>,
    ids: Vec<u64>,
    alone: Vec<Vec<Ans>>,
    reps: usize,
    ready: AtomicUsize,
    failed: AtomicUsize,
}

fn stress<L: Lib>(s: &Stress<L>, t: usize) -> Res {
    let ops = &s.case.scripts[t];
    s.ready.fetch_add(1, Ordering::SeqCst);
    while s.ready.load(Ordering::SeqCst) < s.case.scripts.len() {
        std::thread::yield_now();
    }
    for rep in 0..s.reps {
        if s.failed.load(Ordering::Relaxed) > 0 {
            return Ok(());
        }
        let r = no_panic("in a thread", || {
            let mut own = Own::new(L::fresh(false)?);
            for (k, op) in ops.iter().enumerate() {
                let got = step(op, &s.sets, &s.ids, &mut own)?;
                let want = &s.alone[t][k];
                ck!(
                    &got == want,
                    "thread {t}, operation {k} ({op:?}), time {rep}: got {} alone {}",
                    brief(&got),
                    brief(want)
                );
            }
            Ok(())
        })
        .and_then(|r| r);
        if r.is_err() {
            s.failed.fetch_add(1, Ordering::SeqCst);
            return r;
        }
    }
    Ok(())
}

struct Turns<L: Lib> {
    case: Case,
    sets: Vec<Set<L>>,
    ids: Vec<u64>,
    state: Mutex<(usize, Option<Own<L>>, Vec<Result<Ans, String>>)>,
    next: Condvar,
}

/// Carries out the operations that are this thread's, each in its turn.
fn relay<L: Lib>(s: &Turns<L>, t: usize) -> Res {
    loop {
        let mut st = s.state.lock().unwrap_or_else(|e| e.into_inner());
        loop {
            match s.case.relay.get(st.0) {
                None => return Ok(()),
                Some(o) if o.0 as usize % 3 == t => break,
                Some(_) => st = s.next.wait(st).unwrap_or_else(|e| e.into_inner()),
            }
        }
        let k = st.0;
        let mut own = st.1.take().expect("own values");
        let r = no_panic("in a thread", || {
            let a = step(&s.case.relay[k].1, &s.sets, &s.ids, &mut own)?;
            Ok((a, own))
        })
        .and_then(|r| r);
        match r {
            Ok((a, own)) => {
                st.1 = Some(own);
                st.2.push(Ok(a));
                st.0 += 1;
            }
            Err(e) => {
                st.2.push(Err(e));
                st.0 = usize::MAX;
            }
        }
        s.next.notify_all();
    }
}

/// Runs `f` in `n` threads. Threads that wait for one another for good are an error: all that
/// are left sleep, and ten looks a second apart find that none of them has run in between.
fn in_threads<S: 'static>(n: usize, s: Arc<Any<S>>, f: fn(&S, usize) -> Res) -> Res {
    let (tx, rx) = mpsc::channel();
    let tids: Arc<Vec<AtomicI32>> = Arc::new((0..n).map(|_| AtomicI32::new(0)).collect());
    for t in 0..n {
        let (s, tx, tids) = (s.clone(), tx.clone(), tids.clone());
        std::thread::spawn(move || {
            tids[t].store(unsafe { libc::syscall(libc::SYS_gettid) } as i32, Ordering::SeqCst);
            let r = no_panic("in a thread", || f(&s.0, t)).and_then(|r| r);
            drop(s);
            let _ = tx.send((t, r));
        });
    }
    let mut left: Vec<usize> = (0..n).collect();
    let mut result = Ok(());
    let (mut last, mut still) = (String::new(), 0);
    while !left.is_empty() {
        match rx.recv_timeout(Duration::from_secs(1)) {
            Ok((t, r)) => {
                left.retain(|&x| x != t);
                if result.is_ok() {
                    result = r;
                }
                still = 0;
            }
            Err(_) => {
                let mut now = String::new();
                let mut asleep = true;
                for &t in &left {
                    let tid = tids[t].load(Ordering::SeqCst);
                    let status = std::fs::read_to_string(format!("/proc/self/task/{tid}/status")).unwrap_or_default();
                    asleep &= status.lines().any(|l| l.starts_with("State:") && l.contains("S (sleeping)"));
                    now.extend(status.lines().filter(|l| l.contains("ctxt_switches")));
                }
                still = if asleep && now == last { still + 1 } else { 0 };
                last = now;
                ck!(still < 10, "threads {left:?} wait for one another for good");
            }
        }
    }
    result
}

pub fn check<L: Lib>(c: &Case, ctx: &mut Ctx) -> Res {
    L::before();
    run::<L>(c, ctx)?;
    L::after()
}

fn run<L: Lib>(c: &Case, ctx: &mut Ctx) -> Res {
    let (sets, ids, edges) = build::<L>(c)?;
    let mut alone = Vec::new();
    for ops in &c.scripts {
        alone.push(script(ops, &sets, &ids)?);
    }
    let before = all::<L>(&sets)?;
    let answers: usize = alone.iter().flatten().filter(|a| !a.is_empty()).count();
    let own = c.scripts.iter().flatten().any(|o| matches!(o, TOp::Edge(..) | TOp::Vertex(..) | TOp::Set(..)));
    ctx.label_if(own, "threads change values of their own");
    ctx.label_if(c.scripts.iter().filter(|s| s.iter().any(|o| matches!(o, TOp::Shared(..)))).count() > 1, "a value read by several threads");
    ctx.label_if(c.scripts.len() > 2, "more than two threads");
    ctx.nontrivial = answers > 1 && edges > 0;

    let work: usize = c.scripts.iter().map(|s| s.iter().map(|o| cost(o, edges)).sum()).max().unwrap_or(1);
    let reps = (6000 / work.max(1)).clamp(4, 1500);
    let s = Arc::new(Any(Stress {
        case: c.clone(),
        sets,
        ids,
        alone,
        reps,
        ready: AtomicUsize::new(0),
        failed: AtomicUsize::new(0),
    }));
    in_threads(c.scripts.len(), s.clone(), stress::<L>)?;
    let Some(Any(s)) = Arc::into_inner(s) else { return Err("a thread kept the values".into()) };
    ck!(all::<L>(&s.sets)? == before, "shared values changed");
    if c.relay.is_empty() {
        return Ok(());
    }

    // The same history by one thread, and by three in turn.
    let (sets, ids) = (s.sets, s.ids);
    let ops: Vec<TOp> = c.relay.iter().map(|r| r.1.clone()).collect();
    let want = script(&ops, &sets, &ids)?;
    let s = Arc::new(Any(Turns {
        case: c.clone(),
        sets,
        ids,
        state: Mutex::new((0, Some(Own::new(L::fresh(false)?)), Vec::new())),
        next: Condvar::new(),
    }));
    in_threads(3, s.clone(), relay::<L>)?;
    let Some(Any(s)) = Arc::into_inner(s) else { return Err("a thread kept the values".into()) };
    let st = s.state.into_inner().unwrap_or_else(|e| e.into_inner());
    for (k, (got, want)) in st.2.into_iter().zip(&want).enumerate() {
        let got = got?;
        ck!(
            &got == want,
            "operation {k} ({:?}), by thread {} in turn: got {} by one thread {}",
            c.relay[k].1,
            c.relay[k].0 % 3,
            brief(&got),
            brief(want)
        );
    }
    ctx.label("values passed from thread to thread");
    ck!(all::<L>(&s.sets)? == before, "shared values changed");
    Ok(())
}

fn all<L: Lib>(sets: &[Set<L>]) -> Result<Vec<Ans>, String> {
    let mut v = Vec::new();
    for s in sets {
        v.extend([digest::<L>(&s.g)?, digest_c::<L>(&s.c)?, digest_m::<L>(&s.m)?]);
        if let Some(a) = &s.a {
            v.push(L::ask_a(a, 5, 0, 0)?);
        }
    }
    Ok(v)
}

// ---------------------------------------------------------------- Send and Sync

/// Which of the two a type is, without requiring either.
struct Is<T>(PhantomData<T>);
#[allow(dead_code)]
trait No {
    const SEND: bool = false;
    const SYNC: bool = false;
}
impl<T> No for Is<T> {}
struct IsSend<T>(PhantomData<T>);
impl<T: Send> IsSend<T> {
    const SEND: bool = true;
}
impl<T> No for IsSend<T> {}
impl<T: Sync> Is<T> {
    const SYNC: bool = true;
}

fn types() -> Res {
    macro_rules! both {
        ($($t:ty),* $(,)?) => { $(
            ck!(IsSend::<$t>::SEND, "{} cannot be sent to another thread", stringify!($t));
            ck!(Is::<$t>::SYNC, "{} cannot be shared between threads", stringify!($t));
        )* };
    }
    both!(
        Graph,
        CompressedGraph,
        CsrAdjacencyMatrix,
        CsrSquareMatrix<f64>,
        CsrSquareMatrix<u64>,
        CompressedGraphBuilder,
        GraphRoxError,
    );
    Ok(())
}

pub struct P27;

impl Prop for P27 {
    type Case = Case;
    const ID: &'static str = "P27";
    const RULE: &'static str = "A case is one or two shared graphs with a compressed graph, a pooled matrix, an adjacency matrix and the bytes of each, and a script for each of two to four threads: questions about the shared values (every query, serialisation, loading, compression, pooling, approximation, duplication) and about values of its own, which it makes and changes. Each script is first run alone, then all of them run at once, 4 to 100 times over, and every answer must be the one got alone; half of the cases also carry out a history by three threads in turn and compare with one thread. Most cases ask mostly one kind of question, so that the threads meet in the same code. Non-trivial: a shared graph has an edge and at least two answers are compared.";
    const TRIES: u32 = 10;
    const ASSUMPTIONS: &'static [&'static str] = &["which interleavings occur is up to the scheduler: a run samples them"];
    fn cases(t: Tier) -> u64 {
        if t == Tier::Quick { 60_000 } else { 1_200_000 }
    }
    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        boxed(case(4))
    }
    fn check(c: &Case, ctx: &mut Ctx) -> Res {
        types()?;
        check::<RustLib>(c, ctx)
    }
}

pub struct P28;

impl Prop for P28 {
    type Case = Case;
    const ID: &'static str = "P28";
    const RULE: &'static str = "As for P27, through the functions of the C header, with every list, text and buffer read and released by the thread that asked for it and all of the library's memory in the guarding arena. Non-trivial: a shared graph has an edge and at least two answers are compared.";
    const TRIES: u32 = 10;
    const ASSUMPTIONS: &'static [&'static str] = &["which interleavings occur is up to the scheduler: a run samples them"];
    fn cases(t: Tier) -> u64 {
        if t == Tier::Quick { 60_000 } else { 1_200_000 }
    }
    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        boxed(case(4))
    }
    fn init() {
        capi::load();
    }
    fn check(c: &Case, ctx: &mut Ctx) -> Res {
        check::<CLib>(c, ctx)
    }
}
