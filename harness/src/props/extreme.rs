//! P16: extreme values, consistency and memory.
use crate::alloc;
use crate::fw::{boxed, no_panic, Ctx, Prop, Res, Tier};
use crate::gen::*;
use crate::model::Model;
use crate::views::{self, ck, eq};
use graphrox::builder::CompressedGraphBuilder;
use graphrox::error::GraphRoxError;
use graphrox::matrix::{CsrAdjacencyMatrix, CsrSquareMatrix, MatrixRepresentation};
use graphrox::{CompressedGraph, Graph, GraphRepresentation};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::fmt::Write as _;

pub struct P16;

struct Sink(usize);

impl std::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0 += s.len();
        Ok(())
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C16 {
    und: bool,
    ids: Vec<u64>,
    ops: Vec<(u8, u8, u8)>,
    b: u64,
    /// Raw bits: NaN and infinities included.
    t: u64,
    level: u8,
    digits: u16,
}

fn budget(edges: u64) -> usize {
    64 * 1024 + 2048 * edges as usize
}

fn measured<R>(what: &str, edges: u64, f: impl FnOnce() -> R) -> Result<R, String> {
    let (r, peak) = alloc::measured(f);
    ck!(
        peak <= budget(edges),
        "{what} on {edges} edges used {peak} bytes of memory"
    );
    Ok(r)
}

/// A matrix text of the given dimension: right, or refused for capacity. Never anything else.
fn text(what: &str, dim: u64, r: Result<String, GraphRoxError>) -> Res {
    match r {
        Ok(s) => {
            ck!(dim <= 1 << 14, "{what}: a text of {} bytes for dimension {dim}", s.len());
            if dim == 0 {
                return eq(what, s.as_str(), "");
            }
            eq(&format!("{what}: lines"), s.split("\r\n").count() as u64, dim)
        }
        Err(GraphRoxError::CapacityOverflow(_)) => {
            ck!(dim > 1000, "{what}: capacity error for dimension {dim}");
            Ok(())
        }
        Err(e) => Err(format!("{what}: {e:?}")),
    }
}

impl Prop for P16 {
    type Case = C16;
    const ID: &'static str = "P16";
    const RULE: &'static str = "A case applies edits with any 64-bit IDs (2^64-1 included) to a graph and to the matrices, then calls every operation with extreme block dimensions, thresholds (NaN and infinities included), levels and decimals. Nothing may panic (overflow checks on); edits not mentioning 2^64-1 must all have taken effect and those mentioning it must leave all views consistent; the peak memory of each operation, measured by a counting allocator, stays below 64 KiB + 2 KiB per edge; a matrix text under a 256 MiB cap is either right or the capacity error, which must come for dimensions above 2^20 and not for those up to 1000. Non-trivial: some ID or parameter is above 2^32.";
    fn cases(t: Tier) -> u64 {
        if t == Tier::Quick { 60_000 } else { 900_000 }
    }
    fn strategy(_: Tier) -> BoxedStrategy<C16> {
        let ids = prop_oneof![
            3 => vec(extreme_u64(), 1..8),
            2 => vec(prop_oneof![(0u64..9).prop_map(|d| u64::MAX - d), 0u64..9], 1..8),
            1 => vec(0u64..2000, 1..30),
        ];
        let b = prop_oneof![
            4 => extreme_u64(),
            2 => (0u64..10).prop_map(|d| u64::MAX - d),
            2 => (31u32..34, 0u64..3).prop_map(|(k, d)| (1u64 << k) + d - 1),
            2 => 0u64..20,
        ];
        let t = prop_oneof![3 => threshold_bits(), 1 => any::<u64>(), 1 => Just(f64::NAN.to_bits())];
        boxed(
            (
                any::<bool>(),
                ids,
                vec((any::<u8>(), any::<u8>(), any::<u8>()), 0..30),
                b,
                t,
                any::<u8>(),
                prop_oneof![4 => 0u16..20, 1 => any::<u16>()],
            )
                .prop_map(|(und, ids, ops, b, t, level, digits)| C16 { und, ids, ops, b, t, level, digits }),
        )
    }
    fn check(c: &C16, ctx: &mut Ctx) -> Res {
        let at = |i: u8| c.ids[i as usize % c.ids.len()];
        let mut m = Model::new(c.und);
        // Largest vertex count that edits naming 2^64-1 may account for.
        let mut n_max = 0u64;
        let mut g = new_graph(c.und);
        let mut adj = CsrAdjacencyMatrix::new();
        let mut sq: CsrSquareMatrix<u64> = CsrSquareMatrix::new();
        let mut fl: CsrSquareMatrix<f32> = CsrSquareMatrix::new();
        for &(k, a, b) in &c.ops {
            let (a, b) = (at(a), at(b));
            let named = a == u64::MAX || b == u64::MAX;
            let list = [b, a];
            no_panic(&format!("edit {k} of ({a}, {b})"), || match k % 10 {
                0..=4 => g.add_edge(a, b),
                5 | 6 => g.delete_edge(a, b),
                7 => g.add_vertex(a, None),
                8 => g.add_vertex(a, Some(&list)),
                _ => g.add_vertex(a, Some(&[])),
            })?;
            no_panic(&format!("matrix edit {k} of ({a}, {b})"), || {
                adj.set_entry(k % 3, a, b);
                sq.increment_entry(a, b);
                fl.set_entry(f32::from(k) - 3.0, a, b);
                if k % 4 == 0 {
                    adj.zero_entry(b, a);
                    sq.zero_entry(b, a);
                    fl.increment_entry(b, a);
                }
            })?;
            if !named {
                match k % 10 {
                    0..=4 => m.add_edge(a, b),
                    5 | 6 => m.delete_edge(a, b),
                    7 | 9 => m.add_vertex(a, None),
                    _ => m.add_vertex(a, Some(&list)),
                }
            } else {
                ctx.label("edit naming 2^64-1");
                match k % 10 {
                    // The list of an extreme edit may hold ordinary edges (a, a).
                    8 if a != u64::MAX => m.add_edge(a, a),
                    7 | 9 if a != u64::MAX => m.add_vertex(a, None),
                    _ => {}
                }
                n_max = u64::MAX;
            }
            n_max = n_max.max(m.n);
        }
        let n = g.vertex_count();
        ck!(n >= m.n && n <= n_max, "vertex_count is {n}, want {}", m.n);
        m.n = n;
        let e = m.ec();
        no_panic("queries", || views::full(&m, &g, &c.ids))??;
        eq("entry_count against iteration", adj.entry_count(), adj.into_iter().count() as u64)?;
        eq("entry_count against iteration", sq.entry_count(), sq.into_iter().count() as u64)?;
        eq("entry_count against iteration", fl.entry_count(), fl.into_iter().count() as u64)?;
        for (x, y) in &adj {
            ck!(x < adj.dimension() && y < adj.dimension(), "entry ({x}, {y}) outside the dimension");
        }
        for (_, x, y) in &sq {
            ck!(x < sq.dimension() && y < sq.dimension(), "entry ({x}, {y}) outside the dimension");
        }

        // Rebuilding the graph costs memory per edge only.
        let spec = m.clone();
        measured("building", e, || {
            let mut g = new_graph(c.und);
            for &(a, b) in &spec.e {
                g.add_edge(a, b);
            }
            if spec.n > 0 {
                g.add_vertex(spec.n - 1, None);
            }
            g
        })?;

        let p = no_panic("find_avg_pool_matrix", || measured("pooling", e, || g.find_avg_pool_matrix(c.b)))??;
        no_panic("pool checks", || views::pooled(&m, c.b, &p))??;
        let t = f64::from_bits(c.t);
        let a = no_panic("approximate", || measured("approximating", e, || g.approximate(c.b, t)))??;
        if t.is_nan() {
            ctx.label("NaN threshold");
            ck!(a.is_undirected() == c.und, "approximation direction");
        } else {
            no_panic("approximation checks", || views::approximated(&m, c.b, t, &a, None, &mut 0))??;
        }
        let k = no_panic("compress", || measured("compressing", e, || g.compress(c.level)))??;
        let km = m.compress(c.level);
        no_panic("compressed queries", || views::compressed(&km, &k))??;
        let d = no_panic("decompress", || measured("decompressing", e, || k.decompress()))??;
        no_panic("decompressed queries", || views::full(&km.decompress(), &d, &c.ids))??;
        let gb = no_panic("to_bytes", || measured("serialising", e, || g.to_bytes()))??.map_err(|e| format!("to_bytes: {e:?}"))?;
        let kb = no_panic("compressed to_bytes", || measured("serialising", e, || k.to_bytes()))??
            .map_err(|e| format!("compressed to_bytes: {e:?}"))?;
        let g2 = no_panic("load", || measured("loading", e, || Graph::try_from(gb.as_slice())))??
            .map_err(|e| format!("loading own bytes: {e:?}"))?;
        no_panic("loaded queries", || views::light(&m, &g2, &[]))??;
        let k2 = no_panic("compressed load", || measured("loading", e, || CompressedGraph::try_from(kb.as_slice())))??
            .map_err(|e| format!("loading own compressed bytes: {e:?}"))?;
        no_panic("loaded compressed queries", || views::compressed(&km, &k2))??;
        measured("cloning", e, || (g.clone(), k.clone()))?;
        for &x in &c.ids {
            for &y in &c.ids {
                no_panic("queries with extreme arguments", || {
                    let _ = k.get_compressed_matrix_entry(x, y);
                    let _ = k.does_edge_exist(x, y);
                    let _ = p.get_entry(x, y);
                    let _ = adj.get_entry(x, y);
                    let _ = sq.get_entry(x, y);
                })?;
            }
        }

        // The builder accepts any vertex count.
        let bn = at(0);
        let built = no_panic("builder", || unsafe { CompressedGraphBuilder::new(c.und, bn, c.level).finish() })?;
        eq("built vertex_count", built.vertex_count(), bn)?;
        eq("built edge_count", built.edge_count(), 0)?;
        no_panic("decompress an empty built graph", || {
            let d = built.decompress();
            views::light(&Model { und: c.und, n: bn, e: Default::default() }, &d, &[])
        })??;

        let cap = 256 << 20;
        let digits = c.digits as usize;
        // Texts of middling dimensions are legitimate but slow: a sample of them is enough.
        let do_text = |dim: u64| dim <= 200 || dim > 1 << 20 || (dim <= 2000 && digits % 8 == 7);
        no_panic("matrix text", || -> Res {
            if do_text(n) {
                text("matrix_string", n, alloc::limited(cap, || g.matrix_string()))?;
            }
            let kdim = km.dim();
            if do_text(kdim) {
                text("compressed matrix_string", kdim, alloc::limited(cap, || k.matrix_string()))?;
            }
            if do_text(p.dimension()) {
                let d = digits.min(if p.dimension() < 20 { 70_000 } else { 30 });
                text("pool text", p.dimension(), alloc::limited(cap, || p.to_string_with_precision(d)))?;
            }
            if do_text(sq.dimension()) {
                text("square text", sq.dimension(), alloc::limited(cap, || sq.to_string_with_precision(digits % 30)))?;
            }
            if do_text(adj.dimension()) {
                // Display reports failure through the formatter, not by panicking.
                let mut s = Sink(0);
                let r = alloc::limited(cap, || write!(s, "{adj}"));
                ck!(r.is_ok() || adj.dimension() > 1000, "Display of dimension {} failed", adj.dimension());
            }
            Ok(())
        })??;
        let big = |v: u64| v > u64::from(u32::MAX);
        ctx.nontrivial = big(c.b) || c.ids.iter().any(|&v| big(v));
        ctx.label_if(n > 1 << 20, "text refused");
        ctx.label_if(n > 1 << 62, "vertex count above 2^62");
        ctx.label_if(!m.e.is_empty() && n > 1 << 40, "edges among over 2^40 vertices");
        ctx.label_if(big(c.b.min(n)), "effective block dimension above 2^32");
        Ok(())
    }
}
