//! P08 (compression), P09 (decompression), P17 (builder).
use crate::fw::{boxed, Ctx, Prop, Res, Tier};
use crate::gen::*;
use crate::model::CModel;
use crate::props::graph::{in_turns, pool_of, resolve_in, turns, RawOp};
use crate::views::{self, ck, eq};
use graphrox::builder::CompressedGraphBuilder;
use graphrox::{CompressedGraph, GraphRepresentation};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C08 {
    spec: GraphSpec,
    level: LSel,
    #[serde(default)]
    turns: Vec<RawOp>,
}

pub struct P08;

impl Prop for P08 {
    type Case = C08;
    const ID: &'static str = "P08";
    const RULE: &'static str = "A case is a graph with blocks of every density and a level, mostly chosen at, just below or just above the edge count of one of its blocks; the compressed graph's blocks, counts, level, direction, edge queries and text are compared with an integer count of each 8x8 block of the model. Non-trivial: the graph has a block that is kept and one that is dropped, or a block whose edge count equals the level.";
    fn cases(t: Tier) -> u64 {
        if t == Tier::Quick { 720_000 } else { 12_000_000 }
    }
    fn strategy(_: Tier) -> BoxedStrategy<C08> {
        boxed((graph_spec(), lsel(), turns()).prop_map(|(spec, level, turns)| C08 { spec, level, turns }))
    }
    fn large() -> Option<BoxedStrategy<C08>> {
        Some(boxed((large_spec(), lsel()).prop_map(|(spec, level)| C08 { spec, level, turns: vec![] })))
    }
    fn check(c: &C08, ctx: &mut Ctx) -> Res {
        // The same level in every turn.
        let level = c.level.get(&c.spec.model());
        ctx.label_if(!c.turns.is_empty(), "compressed again after edits");
        in_turns(&c.spec, &c.turns, &mut |m, g| {
            let want = m.compress(level);
            let k = g.compress(level);
            views::compressed(&want, &k)?;
            // No block beyond the kept ones: the serialised entry count is the only other view.
            let b = k.to_bytes().map_err(|e| format!("to_bytes: {e:?}"))?;
            views::compressed_bytes(&want, &b)?;
            // Dropped blocks read as zero and their edges as absent.
            let counts = m.block_counts(8);
            for &(x, y) in counts.keys() {
                let expect = want.bits.get(&(x, y)).copied().unwrap_or(0);
                eq(&format!("block ({x}, {y})"), k.get_compressed_matrix_entry(x, y), expect)?;
            }
            for &(a, b) in m.e.iter().take(300) {
                ck!(
                    k.does_edge_exist(a, b) == want.has(a, b),
                    "edge ({a}, {b}) of the graph: compressed graph says {}",
                    !want.has(a, b)
                );
            }
            views::light(m, g, &[]).map_err(|e| format!("source after compress: {e}"))?;
            let eff = u64::from(level.clamp(1, 64));
            let kept = want.bits.len();
            let exact = counts.values().any(|&c| c == eff);
            ctx.nontrivial |= exact || (kept > 0 && kept < counts.len());
            ctx.label_if(exact, "block exactly at the level");
            ctx.label_if(counts.values().any(|&c| c + 1 == eff), "block one below the level");
            ctx.label_if(m.n < 8 && m.n > 0, "fewer than 8 vertices");
            ctx.label_if(m.n % 8 != 0, "vertex count not a multiple of 8");
            ctx.label_if(eff == 64, "level 64");
            ctx.label_if(kept > 0 && m.n > 1 << 32, "kept block, over 2^32 vertices");
            ctx.label_if(level == 0 || level > 64, "level clamped");
            Ok(())
        })
    }
}

pub struct P09;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C09 {
    src: CSource,
    relevel: u8,
    /// Edits of the decompressed graph before it is compressed again.
    #[serde(default)]
    turns: Vec<RawOp>,
}

impl Prop for P09 {
    type Case = C09;
    const ID: &'static str = "P09";
    const RULE: &'static str = "A case is a compressed graph, from compressing a generated graph or from the builder; its decompression is compared in all views with the edges of the model's kept blocks (with the original graph at level 1), edge queries and counts of the compressed graph are compared with the decompressed graph over a grid of vertex pairs, and decompressing and compressing again at the same level, twice, must give an equal compressed graph. Non-trivial: at least one block is stored.";
    fn cases(t: Tier) -> u64 {
        if t == Tier::Quick { 240_000 } else { 3_600_000 }
    }
    fn strategy(_: Tier) -> BoxedStrategy<C09> {
        boxed((csource(), 1u8..65, turns()).prop_map(|(src, relevel, turns)| C09 { src, relevel, turns }))
    }
    fn large() -> Option<BoxedStrategy<C09>> {
        Some(boxed((large_csource(), 1u8..65).prop_map(|(src, relevel)| C09 { src, relevel, turns: vec![] })))
    }
    fn check(c: &C09, ctx: &mut Ctx) -> Res {
        let m = c.src.model();
        let k = c.src.live();
        let dm = m.decompress();
        let d = k.decompress();
        views::full(&dm, &d, &[]).map_err(|e| format!("decompressed: {e}"))?;
        eq("edge_count of compressed and decompressed", k.edge_count(), d.edge_count())?;
        eq("vertex_count of compressed and decompressed", k.vertex_count(), d.vertex_count())?;
        eq("direction of compressed and decompressed", k.is_undirected(), d.is_undirected())?;
        let uni = views::universe(&dm, &[], 24);
        let step = (uni.len() / 24).max(1);
        for &a in uni.iter().step_by(step) {
            for &b in uni.iter().step_by(step) {
                ck!(
                    k.does_edge_exist(a, b) == d.does_edge_exist(a, b),
                    "edge ({a}, {b}): compressed says {}, decompressed says {}",
                    k.does_edge_exist(a, b),
                    d.does_edge_exist(a, b)
                );
            }
        }
        if let CSource::Compress(spec, l) = &c.src {
            let gm = spec.model();
            if l.get(&gm) <= 1 {
                ctx.label("level 1");
                views::full(&gm, &d, &[]).map_err(|e| format!("lossless decompression: {e}"))?;
            }
            // Everything that was kept is dense enough to be kept again.
            let k2 = d.compress(m.level);
            views::compressed(&m, &k2).map_err(|e| format!("compressed again: {e}"))?;
            let d2 = k2.decompress();
            views::full(&dm, &d2, &[]).map_err(|e| format!("decompressed twice: {e}"))?;
        } else {
            let want = dm.compress(c.relevel);
            let k2 = d.compress(c.relevel);
            views::compressed(&want, &k2).map_err(|e| format!("recompressed: {e}"))?;
            views::full(&want.decompress(), &k2.decompress(), &[]).map_err(|e| format!("decompressed twice: {e}"))?;
        }
        if !c.turns.is_empty() && !m.bits.is_empty() {
            // The decompressed graph is a live graph: edited, its compression decompresses
            // to the edited graph, and the compressed graph still to what it held.
            ctx.label("decompressed graph edited");
            let (mut em, mut eg) = (dm.clone(), d.clone());
            for raw in &c.turns {
                for o in resolve_in(raw, &pool_of(&[0, 1, 7, 8], &em), &em) {
                    o.on_model(&mut em);
                    o.on_graph(&mut eg);
                }
                let back = eg.compress(1).decompress();
                views::full(&em, &back, &[]).map_err(|e| format!("decompressed after {raw:?}: {e}"))?;
            }
            views::full(&dm, &k.decompress(), &[]).map_err(|e| format!("decompressed again: {e}"))?;
        }
        ctx.nontrivial = !m.bits.is_empty();
        ctx.label_if(m.bits.values().any(|&b| b >> 63 == 1), "last bit of a block set");
        ctx.label_if(m.und, "undirected");
        ctx.label_if(m.n > 1 << 32 && !m.bits.is_empty(), "over 2^32 vertices");
        ctx.label_if(dm.n > 0 && !dm.e.iter().any(|e| e.0 == dm.n - 1 || e.1 == dm.n - 1), "isolated last vertex");
        Ok(())
    }
}

pub struct P17;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C17 {
    und: bool,
    n: u64,
    level: u8,
    blocks: Vec<(u64, u64, u64)>,
    order: u64,
    weights: Vec<bool>,
    /// Also set bits beyond the vertex count (inside the last block).
    spill: bool,
}

impl Prop for P17 {
    type Case = C17;
    const ID: &'static str = "P17";
    const RULE: &'static str = "A case is a vertex count (often next to a multiple of 8, up to 2^64-1), a level, a direction and distinct non-zero blocks in any order, symmetric when undirected, each added with its bit count supplied or left to be computed; all views of the finished graph are compared with the model, and when all bits are inside the vertex count so are its bytes, the graph loaded from them and the decompressed graph. Non-trivial: at least two blocks.";
    fn cases(t: Tier) -> u64 {
        if t == Tier::Quick { 360_000 } else { 6_000_000 }
    }
    fn strategy(_: Tier) -> BoxedStrategy<C17> {
        boxed(
            (
                any::<bool>(),
                vertex_count(),
                any::<u8>(),
                raw_blocks(0..9),
                any::<u64>(),
                proptest::collection::vec(any::<bool>(), 1..5),
                prop::bool::weighted(0.2),
            )
                .prop_map(|(und, n, level, blocks, order, weights, spill)| C17 {
                    und,
                    n,
                    level,
                    blocks,
                    order,
                    weights,
                    spill,
                }),
        )
    }
    fn large() -> Option<BoxedStrategy<C17>> {
        Some(boxed(
            (large_blocks(), any::<bool>(), any::<u8>(), any::<u64>(), proptest::collection::vec(any::<bool>(), 1..5))
                .prop_map(|((n, blocks), und, level, order, weights)| C17 { und, n, level, blocks, order, weights, spill: false }),
        ))
    }
    fn check(c: &C17, ctx: &mut Ctx) -> Res {
        let mut bits: BTreeMap<(u64, u64), u64> = fit_blocks(c.und, c.n, &c.blocks);
        let mut spilled = false;
        if c.spill && c.n > 0 && c.n < 1 << 60 {
            let full = fit_blocks(c.und, c.n.div_ceil(8) * 8, &c.blocks);
            spilled = full != bits;
            bits = full;
        }
        let m = CModel { und: c.und, n: c.n, level: c.level.clamp(1, 64), bits };
        let mut b = CompressedGraphBuilder::new(c.und, c.n, c.level);
        let list: Vec<_> = m.bits.iter().map(|(&k, &v)| (k, v)).collect();
        for (i, p) in permutation(list.len(), c.order).into_iter().enumerate() {
            let ((x, y), v) = list[p];
            let w = c.weights[i % c.weights.len()].then(|| u64::from(v.count_ones()));
            ctx.label(if w.is_some() { "bit count supplied" } else { "bit count computed" });
            b.add_compressed_matrix_entry(v, x, y, w);
        }
        let k = unsafe { b.finish() };
        views::compressed(&m, &k)?;
        ctx.nontrivial = m.bits.len() >= 2;
        ctx.label_if(c.n % 8 == 0 && c.n > 0, "vertex count a multiple of 8");
        ctx.label_if(c.n == 0, "no vertices");
        ctx.label_if(c.und && m.bits.len() >= 2, "undirected with blocks");
        if spilled {
            ctx.label("bits beyond the vertex count");
            return Ok(());
        }
        let bytes = k.to_bytes().map_err(|e| format!("to_bytes: {e:?}"))?;
        views::compressed_bytes(&m, &bytes)?;
        let back = CompressedGraph::try_from(bytes.as_slice()).map_err(|e| format!("loading built graph's bytes: {e:?}"))?;
        views::compressed(&m, &back).map_err(|e| format!("loaded: {e}"))?;
        views::full(&m.decompress(), &k.decompress(), &[]).map_err(|e| format!("decompressed: {e}"))
    }
}
