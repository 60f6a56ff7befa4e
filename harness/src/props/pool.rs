//! P10 (average pooling), P11 (approximation).
use crate::fw::{boxed, Ctx, Prop, Res, Tier};
use crate::gen::*;
use crate::model::Model;
use crate::props::graph::{in_turns, turns, RawOp};
use crate::views::{self, ck};
use graphrox::matrix::MatrixRepresentation;
use graphrox::GraphRepresentation;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub struct P10;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C10 {
    spec: GraphSpec,
    b: BSel,
    #[serde(default)]
    turns: Vec<RawOp>,
}

impl Prop for P10 {
    type Case = C10;
    const ID: &'static str = "P10";
    const RULE: &'static str = "A case is a graph and a block dimension (0 to 20, powers of two, the vertex count divided by a small number, the vertex count plus or minus a few, or any 64-bit value); dimension, entry count, iteration and entries of the pooled matrix are compared with exact integer block counts: exactly where doubles are exact (full blocks and power-of-two areas), within 1e-14 relative elsewhere. Non-trivial: the graph has an edge and the effective block dimension is above 1.";
    fn cases(t: Tier) -> u64 {
        if t == Tier::Quick { 1_200_000 } else { 20_000_000 }
    }
    fn strategy(_: Tier) -> BoxedStrategy<C10> {
        boxed((graph_spec(), bsel(), turns()).prop_map(|(spec, b, turns)| C10 { spec, b, turns }))
    }
    fn large() -> Option<BoxedStrategy<C10>> {
        Some(boxed((large_spec(), bsel()).prop_map(|(spec, b)| C10 { spec, b, turns: vec![] })))
    }
    fn check(c: &C10, ctx: &mut Ctx) -> Res {
        // The same block dimension in every turn.
        let b = c.b.get(c.spec.model().n);
        ctx.label_if(!c.turns.is_empty(), "pooled again after edits");
        in_turns(&c.spec, &c.turns, &mut |m, g| {
            let p = g.find_avg_pool_matrix(b);
            views::pooled(m, b, &p)?;
            views::light(m, g, &[]).map_err(|e| format!("source after pooling: {e}"))?;
            let eff = b.clamp(1, m.n.max(1));
            ctx.nontrivial |= !m.e.is_empty() && eff > 1;
            ctx.label_if(m.n % eff != 0, "padded border blocks");
            ctx.label_if(b > m.n, "block dimension above the vertex count");
            ctx.label_if(eff > u64::from(u32::MAX), "block area above 2^64");
            let area = u128::from(eff) * u128::from(eff);
            ctx.label_if(
                eff > 1 && m.block_counts(eff).values().any(|&k| u128::from(k) == area),
                "full block",
            );
            ctx.label_if(p.entry_count() > 1 && eff > 1, "several blocks");
            Ok(())
        })
    }
}

/// A threshold: absolute, or some doubles away from the density of one of the blocks.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum TSel {
    Bits(u64),
    Near(u8, i8),
}

impl TSel {
    pub fn get(&self, m: &Model, b: u64) -> f64 {
        match *self {
            TSel::Bits(t) => f64::from_bits(t),
            TSel::Near(i, d) => {
                let b = b.clamp(1, m.n.max(1));
                let counts: Vec<u64> = m.block_counts(b).into_values().collect();
                let k = if counts.is_empty() { 1 } else { counts[i as usize % counts.len()] };
                let v = k as f64 / (b as f64 * b as f64);
                // Some doubles away, or a power of two of them.
                let d = i64::from(d);
                let d = if d.abs() <= 3 { d } else { d.signum() << (d.abs() - 3).min(50) };
                f64::from_bits(v.to_bits().wrapping_add_signed(d))
            }
        }
    }
}

pub fn tsel() -> BoxedStrategy<TSel> {
    prop_oneof![
        5 => threshold_bits().prop_map(TSel::Bits),
        4 => (any::<u8>(), -3i8..=3).prop_map(|(i, d)| TSel::Near(i, d)),
        1 => (any::<u8>(), -50i8..=50).prop_map(|(i, d)| TSel::Near(i, d)),
    ]
    .boxed()
}

pub struct P11;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C11 {
    spec: GraphSpec,
    b: BSel,
    t: TSel,
    t2: u64,
    #[serde(default)]
    turns: Vec<RawOp>,
}

impl Prop for P11 {
    type Case = C11;
    const ID: &'static str = "P11";
    const RULE: &'static str = "A case is a graph, a block dimension and a threshold, half of the time within a few doubles of the density of one of its blocks (or beyond 0..1, or around 10^-18); every block of the approximation is compared with the decision made from exact block counts (when the density of a block whose area is not a power of two is within 4e-16 of the threshold, by the average that the graph's own pooled matrix reports), as are vertex count, direction and all views; a second threshold checks monotonicity. Non-trivial: some block with edges is dropped or decided within a few doubles, or the sparse end of the clamp is exercised.";
    fn cases(t: Tier) -> u64 {
        if t == Tier::Quick { 720_000 } else { 12_000_000 }
    }
    fn strategy(_: Tier) -> BoxedStrategy<C11> {
        boxed(
            (graph_spec(), bsel(), tsel(), threshold_bits(), turns())
                .prop_map(|(spec, b, t, t2, turns)| C11 { spec, b, t, t2, turns }),
        )
    }
    fn large() -> Option<BoxedStrategy<C11>> {
        Some(boxed(
            (large_spec(), prop_oneof![1 => (2u64..5).prop_map(BSel::Abs), 1 => bsel()], tsel(), threshold_bits())
                .prop_map(|(spec, b, t, t2)| C11 { spec, b, t, t2, turns: vec![] }),
        ))
    }
    fn check(c: &C11, ctx: &mut Ctx) -> Res {
        // The same block dimension and threshold in every turn.
        let first = c.spec.model();
        let b = c.b.get(first.n);
        let t = c.t.get(&first, b);
        if t.is_nan() {
            return Ok(());
        }
        ctx.label_if(!c.turns.is_empty(), "approximated again after edits");
        in_turns(&c.spec, &c.turns, &mut |m, g| {
            let a = g.approximate(b, t);
            let mut undecided = 0;
            let pool = g.find_avg_pool_matrix(b);
            views::approximated(m, b, t, &a, Some(&pool), &mut undecided)?;
            views::light(m, g, &[]).map_err(|e| format!("source after approximation: {e}"))?;

            let t2 = f64::from_bits(c.t2);
            let a2 = g.approximate(b, t2);
            let (lo, hi) = if t <= t2 { (&a, &a2) } else { (&a2, &a) };
            for (x, y) in hi {
                ck!(
                    lo.does_edge_exist(x, y),
                    "raising the threshold between {t:e} and {t2:e} adds edge ({x}, {y})"
                );
            }
            ck!(
                lo.vertex_count() == hi.vertex_count(),
                "the threshold changes the vertex count: {} and {}",
                lo.vertex_count(),
                hi.vertex_count()
            );
            if !c.turns.is_empty() {
                // The last threshold asked for before the edit is the first one after it.
                let a = g.approximate(b, t);
                views::approximated(m, b, t, &a, None, &mut 0).map_err(|e| format!("asked again: {e}"))?;
            }

            let trivial = b <= 1 || m.n <= 1;
            let counts = if trivial { Default::default() } else { m.block_counts(b.min(m.n)) };
            let dropped = counts.len() as u64 > a.edge_count();
            ctx.label_if(undecided > 0, "a block decided by its pooled average");
            ctx.label_if(dropped, "drops a block with edges");
            ctx.label_if(matches!(c.t, TSel::Near(..)) && !counts.is_empty(), "threshold at a block's density");
            ctx.label_if(
                matches!(c.t, TSel::Near(_, 0)) && b.min(m.n).is_power_of_two() && !counts.is_empty(),
                "exact tie",
            );
            ctx.label_if(!counts.is_empty() && b.min(m.n) > 1_000_000_000, "density below 10^-18");
            ctx.label_if(trivial, "identity");
            ctx.nontrivial |= !counts.is_empty() && (dropped || matches!(c.t, TSel::Near(..)) || b.min(m.n) > 1_000_000_000);
            Ok(())
        })
    }
}
