//! P12 (adjacency matrix), P13 (square matrix), P14, P15 (matrix text).
use crate::fw::{boxed, Ctx, Prop, Res, Tier};
use crate::gen::*;
use crate::model::{render, CModel};
use crate::props::graph::{in_turns, turns, RawOp};
use crate::views::{self, ck, eq};
use graphrox::error::GraphRoxError;
use graphrox::matrix::{CsrAdjacencyMatrix, CsrSquareMatrix, MatrixRepresentation};
use graphrox::GraphRepresentation;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;

/// (kind, value, column, row): coordinates by position in the pool of IDs.
type MOp = (u8, u8, u8, u8);

pub struct P12;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C12 {
    ids: Vec<u64>,
    ops: Vec<MOp>,
    /// Many entries in a column or a row, set before the operation at this position.
    #[serde(default)]
    fan: Option<(u8, Fan)>,
    /// (position, column, row, number, rare): an entry set and zeroed in turn many times.
    #[serde(default)]
    often: Option<(u8, u8, u8, u8, u8)>,
    /// (kind, column, row): when not empty, all that is asked before the end.
    #[serde(default)]
    asks: Vec<(u8, u8, u8)>,
}

/// k entries of one column (`out`) or one row, `stride` apart, some of them zeroed again.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Fan {
    hub: u64,
    base: u64,
    stride: u64,
    k: u64,
    out: bool,
    gone: Vec<u16>,
    /// When more than one, over so many columns (or rows).
    #[serde(default)]
    spread: u64,
    /// (how many remain, order of zeroing): when present, most are zeroed.
    #[serde(default)]
    thin: Option<(u64, u8)>,
}

fn fan() -> BoxedStrategy<Fan> {
    (
        prop_oneof![2 => 0u64..24, 1 => any_id()],
        prop_oneof![3 => 0u64..20, 1 => any_id()],
        prop_oneof![
            4 => Just(1u64),
            2 => 2u64..10,
            2 => (2u32..56).prop_map(|k| 1u64 << k),
            1 => any::<u64>().prop_map(|v| v >> 12 | 1),
        ],
        prop_oneof![
            40 => 2u64..60,
            60 => 250u64..262,
            20 => 60u64..1100,
            1 => 65_530u64..65_545,
        ],
        any::<bool>(),
        vec(any::<u16>(), 0..6),
        prop_oneof![2 => Just(None), 1 => (0u64..12, 0u8..4).prop_map(Some)],
    )
        .prop_map(|(hub, base, stride, k, out, gone, thin)| Fan { hub, base, stride, k, out, gone, thin, spread: 1 })
        .boxed()
}

fn large_fan() -> BoxedStrategy<Fan> {
    (fan(), about(10, 17), prop_oneof![1 => Just(1), 2 => about(1, 16)])
        .prop_map(|(f, k, spread)| Fan { k, spread, hub: f.hub % (1 << 40), base: f.base % (1 << 40), stride: f.stride % 64 + 1, ..f })
        .boxed()
}

impl Fan {
    /// Coordinates, ending early where they would leave the range.
    fn cells(&self) -> Vec<(u64, u64)> {
        (0..self.k)
            .map_while(|i| self.base.checked_add(i.checked_mul(self.stride)?).filter(|v| *v < u64::MAX))
            .enumerate()
            .map(|(i, v)| (self.hub.saturating_add(i as u64 % self.spread.max(1)).min(u64::MAX - 1), v))
            .map(|(h, v)| if self.out { (h, v) } else { (v, h) })
            .collect()
    }
    fn zeroed(&self, cells: &[(u64, u64)]) -> Vec<(u64, u64)> {
        let mut v: Vec<_> = self.gone.iter().filter(|_| !cells.is_empty()).map(|i| cells[*i as usize % cells.len()]).collect();
        if let Some((keep, order)) = self.thin {
            v.extend(thinned(cells, keep, order));
        }
        v
    }
}

fn many_times() -> BoxedStrategy<Option<(u8, u8, u8, u8, u8)>> {
    prop_oneof![
        150 => Just(None),
        1 => (any::<u8>(), any::<u8>(), any::<u8>(), any::<u8>(), any::<u8>()).prop_map(Some)
    ]
    .boxed()
}

fn asks() -> BoxedStrategy<Vec<(u8, u8, u8)>> {
    prop_oneof![4 => Just(vec![]), 1 => vec((any::<u8>(), any::<u8>(), any::<u8>()), 1..3)].boxed()
}

/// A single question about an adjacency matrix.
fn ask12(set: &BTreeSet<(u64, u64)>, a: &CsrAdjacencyMatrix, kind: u8, v: u64, w: u64) -> Res {
    let sorted = |mut v: Vec<u64>| {
        v.sort_unstable();
        v
    };
    let col = || set.range((v, 0)..=(v, u64::MAX)).map(|e| e.1).collect::<Vec<_>>();
    let row = || set.iter().filter(|e| e.1 == v).map(|e| e.0).collect::<Vec<_>>();
    match kind % 7 {
        0 => eq(&format!("row_nonzero_entry_count({v})"), a.row_nonzero_entry_count(v), row().len() as u64),
        1 => eq(&format!("col_nonzero_entry_count({v})"), a.col_nonzero_entry_count(v), col().len() as u64),
        2 => eq(&format!("get_sparse_row_vector({v})"), sorted(a.get_sparse_row_vector(v)), sorted(row())),
        3 => eq(&format!("get_sparse_col_vector({v})"), sorted(a.get_sparse_col_vector(v)), sorted(col())),
        4 => eq(&format!("get_entry({v}, {w})"), a.get_entry(v, w), u8::from(set.contains(&(v, w)))),
        5 => eq("entry_count", a.entry_count(), set.len() as u64),
        _ => eq("iterated entries", a.into_iter().collect::<BTreeSet<_>>(), set.clone()),
    }
}

fn adjacency(set: &BTreeSet<(u64, u64)>, dim: u64, a: &CsrAdjacencyMatrix, ids: &[u64]) -> Res {
    eq("dimension", a.dimension(), dim)?;
    eq("entry_count", a.entry_count(), set.len() as u64)?;
    let mut seen = BTreeSet::new();
    for e in a {
        ck!(seen.insert(e), "iteration yields {e:?} twice");
    }
    eq("iterated entries", &seen, set)?;
    let pick = (set.len() as u64 ^ dim.wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 40) as usize;
    views::protocol(|| a.into_iter(), |e| e, set, pick).map_err(|e| format!("{e} (way {})", pick % 8))?;
    for &v in ids {
        let mut c = a.get_sparse_col_vector(v);
        let mut r = a.get_sparse_row_vector(v);
        c.sort_unstable();
        r.sort_unstable();
        let wc: Vec<u64> = set.iter().filter(|e| e.0 == v).map(|e| e.1).collect();
        let mut wr: Vec<u64> = set.iter().filter(|e| e.1 == v).map(|e| e.0).collect();
        wr.sort_unstable();
        eq(&format!("col_nonzero_entry_count({v})"), a.col_nonzero_entry_count(v), wc.len() as u64)?;
        eq(&format!("row_nonzero_entry_count({v})"), a.row_nonzero_entry_count(v), wr.len() as u64)?;
        eq(&format!("get_sparse_col_vector({v})"), c, wc)?;
        eq(&format!("get_sparse_row_vector({v})"), r, wr)?;
        for &w in ids {
            let want = u8::from(set.contains(&(v, w)));
            ck!(a.get_entry(v, w) == want, "get_entry({v}, {w}): got {} want {want}", a.get_entry(v, w));
        }
    }
    Ok(())
}

impl Prop for P12 {
    type Case = C12;
    const ID: &'static str = "P12";
    const RULE: &'static str = "A case is a sequence of set_entry calls (zero, one and other values) and zero_entry calls over a small pool of coordinates; after each call the touched entry, entry count and dimension, and regularly all views, are compared with a set of coordinates. Non-trivial: an existing entry is overwritten by a set to zero or zeroed, and entries remain.";
    fn cases(t: Tier) -> u64 {
        if t == Tier::Quick { 960_000 } else { 16_000_000 }
    }
    fn strategy(_: Tier) -> BoxedStrategy<C12> {
        boxed(
            (
                palette(),
                prop_oneof![
                    8 => vec((any::<u8>(), any::<u8>(), any::<u8>(), any::<u8>()), 0..20),
                    2 => vec((any::<u8>(), any::<u8>(), any::<u8>(), any::<u8>()), 20..80),
                ],
                prop_oneof![40 => Just(None), 1 => (any::<u8>(), fan()).prop_map(Some)],
                many_times(),
                asks(),
            )
                .prop_map(|(ids, ops, fan, often, asks)| C12 { ids, ops, fan, often, asks }),
        )
    }
    fn large() -> Option<BoxedStrategy<C12>> {
        let op = || (any::<u8>(), any::<u8>(), any::<u8>(), any::<u8>());
        Some(boxed((palette(), vec(op(), 1..6), (any::<u8>(), large_fan())).prop_map(|(ids, ops, fan)| {
            C12 { ids, ops, fan: Some(fan), often: None, asks: vec![] }
        })))
    }
    fn check(c: &C12, ctx: &mut Ctx) -> Res {
        let mut a = if c.ops.len() % 2 == 0 { CsrAdjacencyMatrix::new() } else { CsrAdjacencyMatrix::default() };
        let mut set = BTreeSet::new();
        let mut dim = 0u64;
        let at = |i: u8| c.ids[i as usize % c.ids.len()];
        let mut removed = false;
        let mut ids = c.ids.clone();
        ids.extend(c.ids.iter().take(3).map(|v| v.wrapping_add(1)));
        ids.extend([0, u64::MAX]);
        let focused = !c.asks.is_empty();
        if focused {
            ctx.label("asks the same questions after every call");
        } else {
            adjacency(&set, dim, &a, &ids).map_err(|e| format!("new matrix: {e}"))?;
        }
        for (i, &(k, v, x, y)) in c.ops.iter().enumerate() {
            if let Some((at, f)) = &c.fan {
                if *at as usize % c.ops.len() == i {
                    let cells = f.cells();
                    for &(x, y) in &cells {
                        a.set_entry(1, x, y);
                        set.insert((x, y));
                        dim = dim.max(x.max(y) + 1);
                    }
                    for (x, y) in f.zeroed(&cells) {
                        a.zero_entry(x, y);
                        set.remove(&(x, y));
                    }
                    ids.extend([f.hub, f.base, f.base.wrapping_add(f.stride)]);
                    ids.extend(cells.last().map(|e| if f.out { e.1 } else { e.0 }));
                    ctx.label_if(cells.len() >= 256, "256 entries in a column or row");
                    ctx.label_if(cells.len() >= 65_536, "65536 entries in a column or row");
                    ctx.label_if(f.thin.is_some(), "most of a column or row zeroed again");
                }
            }
            if let Some((pos, x, y, n, rare)) = c.often {
                if pos as usize % c.ops.len() == i {
                    let (x, y, n) = (at(x), at(y), often(n, rare) - 1);
                    for i in 0..n {
                        if i % 2 == 0 {
                            a.set_entry(1, x, y);
                        } else {
                            a.zero_entry(x, y);
                        }
                    }
                    set.remove(&(x, y));
                    if n % 2 == 1 {
                        set.insert((x, y));
                    }
                    dim = dim.max(x.max(y) + 1);
                    ctx.label("hundreds of calls at once");
                }
            }
            let (x, y) = match (&c.fan, k >> 6) {
                // Some calls land among the many entries.
                (Some((_, f)), 0) => {
                    let w = f.base.saturating_add(f.stride.saturating_mul(u64::from(y) % f.k)).min(u64::MAX - 1);
                    if f.out { (f.hub, w) } else { (w, f.hub) }
                }
                _ => (at(x), at(y)),
            };
            let what = match k % 8 {
                0..=3 => {
                    let v = if v < 128 { 1 } else { v };
                    a.set_entry(v, x, y);
                    set.insert((x, y));
                    dim = dim.max(x.max(y) + 1);
                    "set"
                }
                4 | 5 => {
                    a.set_entry(0, x, y);
                    if set.remove(&(x, y)) {
                        removed = true;
                        ctx.label("overwrites with zero");
                    }
                    dim = dim.max(x.max(y) + 1);
                    "set to zero"
                }
                _ => {
                    a.zero_entry(x, y);
                    if set.remove(&(x, y)) {
                        removed = true;
                        ctx.label("zeroes an existing entry");
                    } else {
                        ctx.label("zeroes a missing entry");
                    }
                    "zero_entry"
                }
            };
            if focused {
                for &(k, v, w) in &c.asks {
                    let id = |i: u8| ids[i as usize % ids.len()];
                    ask12(&set, &a, k, id(v), id(w)).map_err(|e| format!("step {i}: {what} ({x}, {y}): {e}"))?;
                }
                continue;
            }
            let want = u8::from(set.contains(&(x, y)));
            ck!(a.get_entry(x, y) == want, "step {i}: {what} ({x}, {y}) reads {}", a.get_entry(x, y));
            ck!(
                a.entry_count() == set.len() as u64 && a.dimension() == dim,
                "step {i}: {what} ({x}, {y}): entry_count {} (want {}), dimension {} (want {dim})",
                a.entry_count(),
                set.len(),
                a.dimension()
            );
            if i % 8 == 7 {
                adjacency(&set, dim, &a, &ids).map_err(|e| format!("step {i}: {what} ({x}, {y}): {e}"))?;
            }
        }
        adjacency(&set, dim, &a, &ids)?;
        adjacency(&set, dim, &a.clone(), &ids).map_err(|e| format!("clone: {e}"))?;
        ctx.nontrivial = removed && !set.is_empty();
        ctx.label_if(dim > 1 << 32, "dimension above 2^32");
        Ok(())
    }
}

/// A numeric type a square matrix can hold, made from a small number or from raw bits.
pub trait Num: Copy + PartialEq + PartialOrd + std::fmt::Debug + std::fmt::Display + Default {
    const NAME: &'static str;
    const FRACTIONAL: bool;
    fn make(small: bool, v: u64) -> Self;
    fn plus_one(self) -> Option<Self>;
    fn text(self, digits: usize) -> String;
    /// Equal, or both not a number.
    #[allow(clippy::eq_op)]
    fn same(self, other: Self) -> bool {
        self == other || (self != self && other != other)
    }
}

macro_rules! int_num {
    ($($t:ident),*) => {$(
        impl Num for $t {
            const NAME: &'static str = stringify!($t);
            const FRACTIONAL: bool = false;
            #[allow(unused_comparisons)]
            fn make(small: bool, v: u64) -> Self {
                if small {
                    let k = (v % 7) as i8 - 3;
                    return if k < 0 && $t::MIN == 0 { (-k) as $t } else { k as $t };
                }
                // Spread 64 bits over the type: extremes, powers of ten, anything.
                let w = (u128::from(v) << 64 | u128::from(v.rotate_left(23))) as $t;
                match v % 6 {
                    0 => $t::MAX,
                    1 => $t::MIN,
                    2 => $t::MAX / 2 + (v >> 60) as $t,
                    3 => {
                        let mut p: $t = 1;
                        for _ in 0..(v >> 8) % 40 {
                            p = p.checked_mul(10).unwrap_or(p);
                        }
                        if v & 128 != 0 && $t::MIN != 0 { (0 as $t).wrapping_sub(p) } else { p - (v >> 7 & 1) as $t }
                    }
                    _ => w,
                }
            }
            fn plus_one(self) -> Option<Self> {
                self.checked_add(1)
            }
            fn text(self, digits: usize) -> String {
                if digits == 0 { format!("{self}") } else { format!("{self}.{}", "0".repeat(digits)) }
            }
        }
    )*};
}
int_num!(u8, u16, u32, u64, u128, i8, i16, i32, i64, i128);

macro_rules! float_num {
    ($($t:ident $b:ident),*) => {$(
        impl Num for $t {
            const NAME: &'static str = stringify!($t);
            const FRACTIONAL: bool = true;
            fn make(small: bool, v: u64) -> Self {
                if small {
                    return (v % 13) as $t / 2.0 - 3.0;
                }
                let f = match v % 8 {
                    0 => $t::from_bits((v >> 3) as $b),
                    1 => $t::MAX,
                    2 => $t::MIN,
                    3 if v & 128 != 0 => -0.0,
                    3 => $t::MIN_POSITIVE,
                    // Values that sit on or near a rounding boundary.
                    4 => ((v >> 8) % 2001) as $t / 1000.0 - 1.0,
                    5 => 10f64.powi(((v >> 8) % 60) as i32 - 20) as $t * if v & 128 == 0 { 1.0 } else { -1.0 },
                    6 => ((v >> 8) % 200_000) as $t / 200.0 - 500.0,
                    _ => 10f64.powi(((v >> 8) % 12) as i32) as $t - 0.001 * ((v >> 16) % 20) as $t,
                };
                // Infinities and values that are not numbers are rare, but entries like any other.
                match () {
                    _ if f.is_finite() && v >> 58 != 41 => f,
                    _ if v >> 50 & 7 != 3 => 0.5,
                    _ => [$t::NAN, $t::INFINITY, $t::NEG_INFINITY, -$t::NAN][(v >> 40 & 3) as usize],
                }
            }
            fn plus_one(self) -> Option<Self> {
                Some(self + 1.0)
            }
            fn text(self, digits: usize) -> String {
                // Every finite value has fewer decimals than this, and the formatter takes
                // no more than 65535 of them.
                let d = digits.min(2000);
                format!("{self:.d$}{}", "0".repeat(digits - d))
            }
        }
    )*};
}
float_num!(f32 u32, f64 u64);

/// Runs `$f::<T>(args)` for the type number `$ty`.
macro_rules! for_type {
    ($ty:expr, $f:ident ( $($a:expr),* )) => {
        match $ty % 12 {
            0 => $f::<u8>($($a),*),
            1 => $f::<u16>($($a),*),
            2 => $f::<u32>($($a),*),
            3 => $f::<u64>($($a),*),
            4 => $f::<u128>($($a),*),
            5 => $f::<i8>($($a),*),
            6 => $f::<i16>($($a),*),
            7 => $f::<i32>($($a),*),
            8 => $f::<i64>($($a),*),
            9 => $f::<i128>($($a),*),
            10 => $f::<f32>($($a),*),
            _ => $f::<f64>($($a),*),
        }
    };
}

pub struct P13;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C13 {
    ty: u8,
    ids: Vec<u64>,
    /// (kind, small value?, value, column, row)
    ops: Vec<(u8, bool, u64, u8, u8)>,
    #[serde(default)]
    fan: Option<(u8, Fan)>,
    /// (position, column, row, number, rare): an entry set and zeroed in turn many times.
    #[serde(default)]
    often: Option<(u8, u8, u8, u8, u8)>,
    #[serde(default)]
    asks: Vec<(u8, u8, u8)>,
}

/// The methods the generic checks need, for each concrete matrix type.
pub trait Mat<T>: Sized + Clone {
    fn new() -> Self;
    fn dim(&self) -> u64;
    fn count(&self) -> u64;
    fn get(&self, c: u64, r: u64) -> T;
    fn set(&mut self, v: T, c: u64, r: u64);
    fn zero(&mut self, c: u64, r: u64);
    fn inc(&mut self, c: u64, r: u64);
    fn all(&self) -> Vec<(T, u64, u64)>;
    fn protocol(&self, want: &BTreeSet<(u64, u64)>, pick: usize) -> Res;
    fn text(&self, d: usize) -> Result<String, GraphRoxError>;
    fn display(&self) -> Result<String, std::fmt::Error>;
    fn flagged(&self) -> Result<String, std::fmt::Error>;
}

pub trait HasMat: Num {
    type M: Mat<Self>;
}

macro_rules! mats {
    ($($t:ident),*) => {$(
        impl HasMat for $t {
            type M = CsrSquareMatrix<$t>;
        }
        impl Mat<$t> for CsrSquareMatrix<$t> {
            fn new() -> Self { CsrSquareMatrix::new() }
            fn dim(&self) -> u64 { self.dimension() }
            fn count(&self) -> u64 { self.entry_count() }
            fn get(&self, c: u64, r: u64) -> $t { self.get_entry(c, r) }
            fn set(&mut self, v: $t, c: u64, r: u64) { self.set_entry(v, c, r) }
            fn zero(&mut self, c: u64, r: u64) { self.zero_entry(c, r) }
            fn inc(&mut self, c: u64, r: u64) { self.increment_entry(c, r) }
            fn all(&self) -> Vec<($t, u64, u64)> { self.into_iter().collect() }
            fn protocol(&self, want: &BTreeSet<(u64, u64)>, pick: usize) -> Res {
                views::protocol(|| self.into_iter(), |e| (e.1, e.2), want, pick)
            }
            fn text(&self, d: usize) -> Result<String, GraphRoxError> { self.to_string_with_precision(d) }
            fn display(&self) -> Result<String, std::fmt::Error> {
                let mut s = String::new();
                write!(s, "{self}")?;
                Ok(s)
            }
            fn flagged(&self) -> Result<String, std::fmt::Error> {
                let mut s = String::new();
                write!(s, "{self:>5000.4}")?;
                Ok(s)
            }
        }
    )*};
}
mats!(u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, f32, f64);

fn square<T: HasMat>(map: &BTreeMap<(u64, u64), T>, dim: u64, m: &T::M, ids: &[u64]) -> Res {
    eq("dimension", m.dim(), dim)?;
    eq("entry_count", m.count(), map.len() as u64)?;
    let mut seen = BTreeSet::new();
    for (v, c, r) in m.all() {
        ck!(seen.insert((c, r)), "iteration yields ({c}, {r}) twice");
        let want = map.get(&(c, r));
        ck!(want.is_some_and(|w| w.same(v)), "iterated entry ({c}, {r}) is {v}, want {want:?}");
    }
    eq("iterated entries", seen.len(), map.len())?;
    let pick = (map.len() as u64 ^ dim.wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 40) as usize;
    m.protocol(&seen, pick).map_err(|e| format!("{e} (way {})", pick % 8))?;
    for &c in ids {
        for &r in ids {
            let want = map.get(&(c, r)).copied().unwrap_or_default();
            ck!(m.get(c, r).same(want), "get_entry({c}, {r}): got {} want {want}", m.get(c, r));
        }
    }
    Ok(())
}

fn check13<T: HasMat>(c: &C13, ctx: &mut Ctx) -> Res {
    let mut m = T::M::new();
    let mut map: BTreeMap<(u64, u64), T> = BTreeMap::new();
    let mut dim = 0u64;
    let at = |i: u8| c.ids[i as usize % c.ids.len()];
    let mut ids = c.ids.clone();
    ids.extend(c.ids.iter().take(2).map(|v| v.wrapping_add(1)));
    ids.extend([0, u64::MAX]);
    let zero = T::default();
    let (mut overwrote, mut incremented) = (false, false);
    let focused = !c.asks.is_empty();
    for (i, &(k, small, v, x, y)) in c.ops.iter().enumerate() {
        if let Some((at, f)) = &c.fan {
            if *at as usize % c.ops.len() == i {
                let cells = f.cells();
                let one = zero.plus_one().expect("one");
                for (i, &(x, y)) in cells.iter().enumerate() {
                    // Only entries that stay away from the type's limits and from zero.
                    if i % 2 == 0 {
                        m.set(one, x, y);
                    } else {
                        m.zero(x, y);
                        m.inc(x, y);
                    }
                    map.insert((x, y), one);
                    dim = dim.max(x.max(y) + 1);
                }
                for (x, y) in f.zeroed(&cells) {
                    m.zero(x, y);
                    map.remove(&(x, y));
                }
                ids.extend([f.hub, f.base, f.base.wrapping_add(f.stride)]);
                ids.extend(cells.last().map(|e| if f.out { e.1 } else { e.0 }));
                ctx.label_if(cells.len() >= 256, "256 entries in a column or row");
                ctx.label_if(cells.len() >= 65_536, "65536 entries in a column or row");
                    ctx.label_if(f.thin.is_some(), "most of a column or row zeroed again");
            }
        }
        if let Some((pos, x, y, n, rare)) = c.often {
            if pos as usize % c.ops.len() == i {
                let (x, y, n) = (at(x), at(y), often(n, rare) - 1);
                let one = zero.plus_one().expect("one");
                for i in 0..n {
                    if i % 2 == 0 {
                        m.set(one, x, y);
                    } else {
                        m.zero(x, y);
                    }
                }
                map.remove(&(x, y));
                if n % 2 == 1 {
                    map.insert((x, y), one);
                }
                dim = dim.max(x.max(y) + 1);
                ctx.label("hundreds of calls at once");
            }
        }
        let (x, y) = match (&c.fan, k >> 6) {
            (Some((_, f)), 0) => {
                let w = f.base.saturating_add(f.stride.saturating_mul(u64::from(y) % f.k)).min(u64::MAX - 1);
                if f.out { (f.hub, w) } else { (w, f.hub) }
            }
            _ => (at(x), at(y)),
        };
        let old = map.get(&(x, y)).copied();
        let what;
        match k % 8 {
            0..=2 => {
                let v = T::make(small, v);
                what = format!("set_entry({v}, {x}, {y})");
                m.set(v, x, y);
                dim = dim.max(x.max(y) + 1);
                overwrote |= old.is_some();
                if v == zero {
                    map.remove(&(x, y));
                    ctx.label_if(old.is_some(), "overwrites with zero");
                } else {
                    map.insert((x, y), v);
                }
            }
            3 => {
                what = format!("set_entry(0, {x}, {y})");
                m.set(zero, x, y);
                dim = dim.max(x.max(y) + 1);
                map.remove(&(x, y));
                ctx.label_if(old.is_some(), "overwrites with zero");
            }
            4 => {
                what = format!("zero_entry({x}, {y})");
                m.zero(x, y);
                map.remove(&(x, y));
            }
            _ => {
                // Overflow of an integer entry is outside the property.
                let Some(next) = old.unwrap_or_default().plus_one() else {
                    continue;
                };
                what = format!("increment_entry({x}, {y})");
                m.inc(x, y);
                incremented |= old.is_some();
                dim = dim.max(x.max(y) + 1);
                if next == zero {
                    ctx.label("increment reaches zero");
                    map.remove(&(x, y));
                } else {
                    map.insert((x, y), next);
                }
            }
        }
        if focused {
            for &(k, v, w) in &c.asks {
                let (v, w) = (ids[v as usize % ids.len()], ids[w as usize % ids.len()]);
                let why = |e: String| format!("step {i}: {what}: {e}");
                match k % 4 {
                    0 | 1 => {
                        let want = map.get(&(v, w)).copied().unwrap_or_default();
                        ck!(m.get(v, w).same(want), "step {i}: {what}: get_entry({v}, {w}) is {}, want {want}", m.get(v, w));
                    }
                    2 => eq("entry_count", m.count(), map.len() as u64).map_err(why)?,
                    _ => eq("iterated entries", m.all().len(), map.len()).map_err(why)?,
                }
            }
            continue;
        }
        let want = map.get(&(x, y)).copied().unwrap_or_default();
        ck!(m.get(x, y).same(want), "step {i}: {what}: entry reads {}, want {want}", m.get(x, y));
        ck!(
            m.count() == map.len() as u64 && m.dim() == dim,
            "step {i}: {what}: entry_count {} (want {}), dimension {} (want {dim})",
            m.count(),
            map.len(),
            m.dim()
        );
        if i % 8 == 7 {
            square::<T>(&map, dim, &m, &ids).map_err(|e| format!("step {i}: {what}: {e}"))?;
        }
    }
    square::<T>(&map, dim, &m, &ids)?;
    square::<T>(&map, dim, &m.clone(), &ids).map_err(|e| format!("clone: {e}"))?;
    ctx.nontrivial = overwrote || incremented;
    #[allow(clippy::eq_op)]
    let odd = map.values().any(|v| v != v);
    ctx.label_if(odd, "an entry that is not a number");
    ctx.label(T::NAME);
    Ok(())
}

impl Prop for P13 {
    type Case = C13;
    const ID: &'static str = "P13";
    const RULE: &'static str = "A case is one of the twelve numeric types and a sequence of set (small, extreme and zero values, rarely infinities and values that are not numbers), zero and increment calls over a small pool of coordinates; after each call the touched entry, entry count and dimension, and regularly all views, are compared with an ordered map of non-zero values. Increments that would overflow an integer type are not made. Non-trivial: an existing entry is overwritten or incremented.";
    fn cases(t: Tier) -> u64 {
        if t == Tier::Quick { 1_920_000 } else { 30_000_000 }
    }
    fn strategy(_: Tier) -> BoxedStrategy<C13> {
        let op = || (any::<u8>(), any::<bool>(), any::<u64>(), any::<u8>(), any::<u8>());
        boxed(
            (
                0u8..12,
                prop_oneof![2 => vec(0u64..6, 1..4), 3 => palette()],
                prop_oneof![8 => vec(op(), 0..20), 2 => vec(op(), 20..80)],
                prop_oneof![60 => Just(None), 1 => (any::<u8>(), fan()).prop_map(Some)],
                many_times(),
                asks(),
            )
                .prop_map(|(ty, ids, ops, fan, often, asks)| C13 { ty, ids, ops, fan, often, asks }),
        )
    }
    fn large() -> Option<BoxedStrategy<C13>> {
        let op = || (any::<u8>(), any::<bool>(), any::<u64>(), any::<u8>(), any::<u8>());
        Some(boxed((0u8..12, palette(), vec(op(), 1..6), (any::<u8>(), large_fan())).prop_map(|(ty, ids, ops, fan)| {
            C13 { ty, ids, ops, fan: Some(fan), often: None, asks: vec![] }
        })))
    }
    fn check(c: &C13, ctx: &mut Ctx) -> Res {
        for_type!(c.ty, check13(c, ctx))
    }
}

pub struct P14;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C14 {
    spec: GraphSpec,
    #[serde(default)]
    turns: Vec<RawOp>,
}

impl Prop for P14 {
    type Case = C14;
    const ID: &'static str = "P14";
    const RULE: &'static str = "A case is a graph of up to 260 vertices (mostly up to 40) built by a history of additions and deletions; its text, and the text and Display output of an adjacency matrix with the same entries, must equal a cell-by-cell rendering of the model. Non-trivial: the graph has an edge and at least two vertices.";
    fn cases(t: Tier) -> u64 {
        if t == Tier::Quick { 600_000 } else { 7_500_000 }
    }
    fn strategy(_: Tier) -> BoxedStrategy<C14> {
        boxed(
            (
                prop_oneof![20 => small_graph_spec(12), 20 => small_graph_spec(40), 3 => small_graph_spec(260)],
                turns(),
            )
                .prop_map(|(spec, turns)| C14 { spec, turns }),
        )
    }
    fn large() -> Option<BoxedStrategy<C14>> {
        Some(boxed(large_small_spec(200, 1300).prop_map(|spec| C14 { spec, turns: vec![] })))
    }
    fn check(c: &C14, ctx: &mut Ctx) -> Res {
        ctx.label_if(!c.turns.is_empty(), "written again after edits");
        in_turns(&c.spec, &c.turns, &mut |m, g| {
            let want = m.matrix_string();
            eq("matrix_string", g.matrix_string().map_err(|e| format!("matrix_string: {e:?}"))?, want.clone())?;
            // The same cells set in the opposite order, through the matrix itself.
            let mut a = CsrAdjacencyMatrix::new();
            if m.n > 0 {
                a.set_entry(0, m.n - 1, 0);
            }
            for &(x, y) in m.e.iter().rev() {
                a.set_entry(1, x, y);
            }
            eq("try_to_string", a.try_to_string().map_err(|e| format!("try_to_string: {e:?}"))?, want.clone())?;
            eq("Display of the adjacency matrix", a.to_string(), want.clone())?;
            if m.n <= 40 {
                eq("Display with a width and a precision", format!("{a:>7.3}"), want.clone())?;
                eq("Display with a great width", format!("{a:*^9000}"), want)?;
            }
            if let (Some(&(x, y)), true) = (m.e.iter().next_back(), m.n <= 40) {
                // Written, changed, written again.
                let mut m2 = m.clone();
                m2.und = false;
                m2.delete_edge(x, y);
                a.zero_entry(x, y);
                eq("try_to_string after zero_entry", a.try_to_string().map_err(|e| format!("{e:?}"))?, m2.matrix_string())?;
                m2.add_edge(y, x);
                a.set_entry(1, y, x);
                eq("try_to_string after set_entry", a.try_to_string().map_err(|e| format!("{e:?}"))?, m2.matrix_string())?;
            }
            ctx.nontrivial |= !m.e.is_empty() && m.n >= 2;
            ctx.label_if(m.n == 0, "no vertices");
            ctx.label_if(m.n == 1, "one vertex");
            ctx.label_if(m.n > 0 && m.e.is_empty(), "no edges");
            ctx.label_if(m.n > 40, "over 40 vertices");
            ctx.label_if(!m.is_symmetric(), "asymmetric");
            ctx.label_if(c.spec.ops.iter().any(|o| matches!(o, GOp::Del(..) | GOp::DelBlock(..))), "with deletions");
            Ok(())
        })
    }
}

pub struct P15;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum C15 {
    Square {
        ty: u8,
        /// (small value?, value, column, row); later entries overwrite.
        sets: Vec<(bool, u64, u8, u8)>,
        dim: u16,
        digits: u32,
        /// Written after the first text, and the decimals of the second.
        #[serde(default)]
        more: Vec<(bool, u64, u8, u8)>,
        #[serde(default)]
        digits2: Option<u8>,
        /// Small values all over a larger matrix before the entries: (every so many cells, seed).
        #[serde(default)]
        fill: Option<(u8, u64)>,
    },
    Compressed(CSource),
    Pool(GraphSpec, u8, u8),
}

type Write = (bool, u64, u8, u8);

/// Rounding means nothing for an infinity or for what is not a number.
fn finite<T: Num>(small: bool, v: u64) -> T {
    let x = T::make(small, v);
    if x.text(0).ends_with(|c: char| c.is_ascii_digit()) { x } else { T::make(true, v) }
}

fn check15<T: HasMat>(fill: Option<(u8, u64)>, sets: &[Write], dim: u16, digits: usize, more: &[Write], digits2: Option<usize>, ctx: &mut Ctx) -> Res {
    let mut m = T::M::new();
    let mut map: BTreeMap<(u64, u64), T> = BTreeMap::new();
    // Keep huge precisions to a few cells.
    let dim = if digits > 2000 { dim.min(2) } else if fill.is_some() { dim.max(48) } else { dim };
    let at = |i: u8| u64::from(i) * if dim > 255 { 5 } else { 1 } % u64::from(dim);
    let digits = if fill.is_some() && digits <= 2000 { digits % 24 } else { digits };
    if dim > 0 {
        m.set(T::default(), u64::from(dim) - 1, 0);
        if let (Some((every, seed)), true) = (fill, dim > 2) {
            let side = u64::from(dim);
            for i in (0..side * side).step_by(1 + usize::from(every % 4)) {
                let (v, c, r) = (T::make(true, seed.wrapping_mul(i + 1) >> 60), i / side, i % side);
                m.set(v, c, r);
                map.insert((c, r), v);
            }
            ctx.label("filled matrix");
        }
        for &(small, v, c, r) in sets {
            let (v, c, r) = (finite::<T>(small, v), at(c), at(r));
            m.set(v, c, r);
            map.insert((c, r), v);
        }
    }
    fn expect<T: HasMat>(map: &BTreeMap<(u64, u64), T>, dim: u16, d: usize) -> String {
        let cell = |c: u64, r: u64| map.get(&(c, r)).copied().filter(|v| *v != T::default()).unwrap_or_default().text(d);
        let w = (0..u64::from(dim))
            .flat_map(|c| (0..u64::from(dim)).map(move |r| (c, r)))
            .map(|(c, r)| cell(c, r).len())
            .max()
            .unwrap_or(0);
        render(u64::from(dim), |c, r| {
            let s = cell(c, r);
            format!("{}{s}", " ".repeat(w - s.len()))
        })
    }
    match m.text(digits) {
        Ok(s) => eq(&format!("{} matrix text with {digits} decimals", T::NAME), s, expect(&map, dim, digits))?,
        Err(GraphRoxError::CapacityOverflow(_)) if digits > usize::from(u16::MAX) => {
            ctx.label("too many decimals refused");
        }
        Err(e) => return Err(format!("{} matrix text with {digits} decimals: {e:?}", T::NAME)),
    }
    let d = if T::FRACTIONAL { 2 } else { 0 };
    let shown = m.display().map_err(|e| format!("Display of a {} matrix: {e}", T::NAME))?;
    eq(&format!("Display of a {} matrix", T::NAME), shown.clone(), expect(&map, dim, d))?;
    // It is the default text however it is asked for.
    let flags = m.flagged().map_err(|e| format!("Display of a {} matrix with a width: {e}", T::NAME))?;
    eq(&format!("Display of a {} matrix with a width", T::NAME), flags, shown)?;
    if let (Some(d2), true) = (digits2, dim > 0) {
        ctx.label("written again after changes");
        for (i, &(small, v, c, r)) in more.iter().enumerate() {
            let (v, c, r) = (finite::<T>(small, v), at(c), at(r));
            if i % 3 == 2 {
                m.zero(c, r);
                map.remove(&(c, r));
            } else {
                m.set(v, c, r);
                map.insert((c, r), v);
            }
        }
        let s = m.text(d2).map_err(|e| format!("{} matrix text with {d2} decimals: {e:?}", T::NAME))?;
        eq(&format!("second {} matrix text with {d2} decimals", T::NAME), s, expect(&map, dim, d2))?;
        let s = m.clone().text(d2).map_err(|e| format!("{e:?}"))?;
        eq(&format!("text of a copied {} matrix with {d2} decimals", T::NAME), s, expect(&map, dim, d2))?;
    }
    let widths: BTreeSet<usize> = map.values().map(|v| v.text(digits.min(20)).len()).collect();
    ctx.nontrivial = widths.len() > 1;
    ctx.label(T::NAME);
    ctx.label_if(map.values().any(|v| *v < T::default()), "negative cell");
    ctx.label_if(digits > 40, "many decimals");
    ctx.label_if(dim == 0, "empty matrix");
    Ok(())
}

impl Prop for P15 {
    type Case = C15;
    const ID: &'static str = "P15";
    const RULE: &'static str = "A case is a square matrix of one of the twelve numeric types (small values, extremes, powers of ten, values next to rounding boundaries; finite) with a number of decimals (0 to 6 mostly, up to 66000 for tiny matrices), a compressed graph, or a pooled matrix; its text and Display output must equal a cell-by-cell rendering with the standard formatter, padded to the widest cell. Non-trivial: the matrix has cells of different widths, or a compressed graph has a block.";
    fn cases(t: Tier) -> u64 {
        if t == Tier::Quick { 720_000 } else { 9_000_000 }
    }
    fn strategy(_: Tier) -> BoxedStrategy<C15> {
        let digits = prop_oneof![
            12 => 0u32..7,
            4 => 0u32..24,
            2 => 24u32..400,
            1 => prop_oneof![Just(65535u32), Just(65536), Just(65534), 60_000u32..66_000],
        ];
        let square = (
            0u8..12,
            vec((any::<bool>(), any::<u64>(), any::<u8>(), any::<u8>()), 0..10),
            prop_oneof![1 => Just(0u16), 2 => Just(1), 12 => 1u16..7, 2 => 7u16..30],
            digits,
            vec((any::<bool>(), any::<u64>(), any::<u8>(), any::<u8>()), 0..4),
            prop_oneof![2 => Just(None), 1 => (0u8..12).prop_map(Some)],
        )
            .prop_map(|(ty, sets, dim, digits, more, digits2)| C15::Square { ty, sets, dim, digits, more, digits2, fill: None });
        // Thousands of narrow cells and few wide ones.
        let filled = (
            0u8..12,
            vec((any::<bool>(), any::<u64>(), any::<u8>(), any::<u8>()), 0..3),
            48u16..120,
            prop_oneof![2 => Just(0u32), 1 => 0u32..7],
            (any::<u8>(), any::<u64>()),
        )
            .prop_map(|(ty, sets, dim, digits, fill)| C15::Square { ty, sets, dim, digits, more: vec![], digits2: None, fill: Some(fill) });
        boxed(prop_oneof![
            1 => filled,
            3600 => square,
            600 => (any::<bool>(), 0u64..100, any::<u8>(), raw_blocks(0..8)).prop_map(|(und, n, level, blocks)| {
                C15::Compressed(CSource::Build { und, n, level, blocks, weights: false })
            }),
            300 => (small_graph_spec(90), lsel()).prop_map(|(s, l)| C15::Compressed(CSource::Compress(s, l))),
            600 => (small_graph_spec(30), 0u8..9, 0u8..12).prop_map(|(s, b, d)| C15::Pool(s, b, d)),
        ])
    }
    fn large() -> Option<BoxedStrategy<C15>> {
        Some(boxed(
            (
                0u8..12,
                vec((any::<bool>(), any::<u64>(), any::<u8>(), any::<u8>()), 0..3),
                100u16..520,
                prop_oneof![2 => Just(0u32), 1 => 0u32..7],
                (any::<u8>(), any::<u64>()),
            )
                .prop_map(|(ty, sets, dim, digits, fill)| C15::Square { ty, sets, dim, digits, more: vec![], digits2: None, fill: Some(fill) }),
        ))
    }
    fn check(c: &C15, ctx: &mut Ctx) -> Res {
        match c {
            C15::Square { ty, sets, dim, digits, more, digits2, fill } => {
                let digits = *digits as usize;
                let digits2 = digits2.map(usize::from);
                for_type!(*ty, check15(*fill, sets, *dim, digits, more, digits2, ctx))
            }
            C15::Compressed(src) => {
                let m: CModel = src.model();
                let s = src.live().matrix_string().map_err(|e| format!("compressed matrix_string: {e:?}"))?;
                ctx.nontrivial = !m.bits.is_empty();
                ctx.label("compressed graph");
                eq("compressed matrix_string", s, m.matrix_string())
            }
            C15::Pool(spec, b, d) => {
                let (m, g) = spec.both();
                let p = g.find_avg_pool_matrix(u64::from(*b));
                views::pooled(&m, u64::from(*b), &p)?;
                let dim = p.dimension();
                let d = *d as usize;
                let want = render(dim, |x, y| format!("{:.d$}", p.get_entry(x, y)));
                // All cells lie in 0..=1, so they are equally wide.
                ctx.label("pooled matrix");
                eq("pool text", p.to_string_with_precision(d).map_err(|e| format!("{e:?}"))?, want)
            }
        }
    }
}
