//! Comparison of live objects with the reference models through every public view.
use crate::fw::Res;
use crate::model::{CModel, Model};
use graphrox::matrix::{CsrSquareMatrix, MatrixRepresentation};
use graphrox::{CompressedGraph, Graph, GraphRepresentation};
use std::collections::BTreeSet;

macro_rules! ck {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } };
}
pub(crate) use ck;

pub fn eq<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> Res {
    if got == want {
        Ok(())
    } else {
        Err(format!("{what}: got {} want {}", brief(&got), brief(&want)))
    }
}

pub fn brief<T: std::fmt::Debug>(v: &T) -> String {
    let s = format!("{v:?}");
    if s.len() > 400 {
        let mut cut = 400;
        while !s.is_char_boundary(cut) {
            cut -= 1;
        }
        format!("{}... ({} chars)", &s[..cut], s.len())
    } else {
        s
    }
}

/// IDs worth asking about: endpoints, their neighbours and aliases, the borders.
pub fn universe(m: &Model, extra: &[u64], cap: usize) -> Vec<u64> {
    let mut s = BTreeSet::new();
    let mut ends: Vec<u64> = Vec::new();
    for &(a, b) in &m.e {
        ends.push(a);
        ends.push(b);
    }
    ends.sort_unstable();
    ends.dedup();
    let step = (ends.len() / cap.max(1)).max(1);
    for v in ends.iter().step_by(step).copied().chain(extra.iter().copied()) {
        s.insert(v);
    }
    let mut near = BTreeSet::new();
    for &v in s.iter().take(12) {
        for x in [
            v.wrapping_add(1),
            v.wrapping_sub(1),
            v.wrapping_add(8),
            v ^ (1 << 32),
            v & 0xffff_ffff,
            v ^ (1 << 63),
        ] {
            near.insert(x);
        }
    }
    s.extend(near);
    s.extend([0, m.n, m.n.wrapping_sub(1), u64::MAX]);
    s.into_iter().collect()
}

fn sorted(mut v: Vec<u64>) -> Vec<u64> {
    v.sort_unstable();
    v
}

/// Counts and the given pairs only.
pub fn light(m: &Model, g: &Graph, pairs: &[(u64, u64)]) -> Res {
    eq("is_undirected", g.is_undirected(), m.und)?;
    eq("vertex_count", g.vertex_count(), m.n)?;
    eq("edge_count", g.edge_count(), m.ec())?;
    for &(a, b) in pairs {
        for (x, y) in [(a, b), (b, a)] {
            let want = m.e.contains(&(x, y));
            ck!(
                g.does_edge_exist(x, y) == want,
                "does_edge_exist({x}, {y}): got {} want {want}",
                !want
            );
        }
    }
    Ok(())
}

pub fn edges_of(g: &Graph) -> Result<BTreeSet<(u64, u64)>, String> {
    let mut set = BTreeSet::new();
    for e in g {
        ck!(set.insert(e), "iteration yields edge {e:?} twice");
    }
    Ok(set)
}

/// The iterator made by `make`, used in one of the ways an iterator can be: `want` are the
/// items it has to yield, each once and in any order.
pub fn protocol<T: Ord + std::fmt::Debug, I: Iterator>(
    make: impl Fn() -> I,
    key: impl Fn(I::Item) -> T,
    want: &BTreeSet<T>,
    pick: usize,
) -> Res {
    let n = want.len();
    let mut seen: BTreeSet<T> = BTreeSet::new();
    let mut it = make();
    let mut take = |item: I::Item| {
        let t = key(item);
        ck!(want.contains(&t), "iteration yields {t:?}");
        let shown = format!("{t:?}");
        ck!(seen.insert(t), "iteration yields {shown} twice");
        Ok(())
    };
    let start = pick / 8 % (n + 2);
    let mut left = n;
    for _ in 0..start {
        let (low, high) = it.size_hint();
        ck!(low <= left && high.is_none_or(|h| left <= h), "size_hint ({low}, {high:?}) with {left} items left");
        match it.next() {
            Some(item) => take(item)?,
            None => break,
        }
        left -= 1;
    }
    let (low, high) = it.size_hint();
    ck!(low <= left && high.is_none_or(|h| left <= h), "size_hint ({low}, {high:?}) with {left} items left");
    let mut rest = Vec::new();
    match pick % 8 {
        0 => rest.extend(it),
        1 => rest = it.fold(rest, |mut v, i| {
            v.push(i);
            v
        }),
        2 => it.for_each(|i| rest.push(i)),
        3 => return eq("count of the rest of an iteration", it.count(), left),
        4 => {
            let last = it.last();
            ck!(last.is_some() == (left > 0), "last of the {left} items left: {}", last.is_some());
            return last.map_or(Ok(()), take);
        }
        5 => {
            let skip = pick / 64 % (left + 2);
            let item = it.nth(skip);
            ck!(item.is_some() == (skip < left), "nth({skip}) of the {left} items left: {}", item.is_some());
            item.map_or(Ok(()), &mut take)?;
            let more = if skip < left { left - skip - 1 } else { 0 };
            let mut k = 0;
            for item in it {
                take(item)?;
                k += 1;
            }
            return eq("items after nth", k, more);
        }
        6 => {
            let some = pick / 64 % (left + 2);
            rest.extend(it.by_ref().take(some));
            eq("items of by_ref().take()", rest.len(), some.min(left))?;
            rest.extend(it);
        }
        _ => {
            let mut second = make();
            loop {
                // Two at once, turn by turn.
                let _ = second.next();
                match it.next() {
                    Some(item) => rest.push(item),
                    None => break,
                }
            }
        }
    }
    for item in rest {
        take(item)?;
    }
    eq("iterated items", seen.len(), n)
}

/// Every view of the graph against the model.
pub fn full(m: &Model, g: &Graph, extra: &[u64]) -> Res {
    light(m, g, &[])?;
    let set = edges_of(g)?;
    if set != m.e {
        let missing: Vec<_> = m.e.difference(&set).take(4).collect();
        let added: Vec<_> = set.difference(&m.e).take(4).collect();
        return Err(format!(
            "iterated edges differ: missing {missing:?}, unexpected {added:?}"
        ));
    }
    // Iterators are restartable and end for good.
    let mut it = g.into_iter();
    let mut k = 0u64;
    while it.next().is_some() {
        k += 1;
        ck!(k <= m.ec(), "iterator yields more than {} edges", m.ec());
    }
    ck!(it.next().is_none(), "iterator resumes after its end");
    let pick = (m.ec() ^ m.n.wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 40) as usize;
    protocol(|| g.into_iter(), |e| e, &m.e, pick).map_err(|e| format!("{e} (way {})", pick % 8))?;

    let uni = universe(m, extra, 40);
    for &v in &uni {
        let out = m.out(v);
        let ins = m.ins(v);
        eq(&format!("out_degree({v})"), g.get_vertex_out_degree(v), out.len() as u64)?;
        eq(&format!("in_degree({v})"), g.get_vertex_in_degree(v), ins.len() as u64)?;
        eq(&format!("out_edges({v})"), sorted(g.get_vertex_out_edges(v)), sorted(out))?;
        eq(&format!("in_edges({v})"), sorted(g.get_vertex_in_edges(v)), sorted(ins))?;
    }
    let step = (m.e.len() / 200).max(1);
    for &(a, b) in m.e.iter().step_by(step) {
        ck!(g.does_edge_exist(a, b), "edge ({a}, {b}) reads as absent");
        let want = m.e.contains(&(b, a));
        ck!(
            g.does_edge_exist(b, a) == want,
            "does_edge_exist({b}, {a}): want {want}"
        );
    }
    let step = (uni.len() / 18).max(1);
    for &a in uni.iter().step_by(step) {
        for &b in uni.iter().step_by(step) {
            let want = m.e.contains(&(a, b));
            ck!(
                g.does_edge_exist(a, b) == want,
                "does_edge_exist({a}, {b}): want {want}"
            );
        }
    }
    Ok(())
}

/// Every view of a compressed graph against its model.
pub fn compressed(m: &CModel, c: &CompressedGraph) -> Res {
    eq("compressed is_undirected", c.is_undirected(), m.und)?;
    eq("compressed vertex_count", c.vertex_count(), m.n)?;
    eq("compression_level", c.compression_level(), m.level)?;
    eq("compressed edge_count", c.edge_count(), m.ec())?;
    for (&(x, y), &v) in &m.bits {
        let got = c.get_compressed_matrix_entry(x, y);
        ck!(got == v, "block ({x}, {y}): got {got:#018x} want {v:#018x}");
        for (p, q) in [
            (y, x),
            (x.wrapping_add(1), y),
            (x, y.wrapping_add(1)),
            (x.wrapping_sub(1), y),
            (x, y.wrapping_sub(1)),
            (x ^ 1 << 32, y),
        ] {
            let want = m.bits.get(&(p, q)).copied().unwrap_or(0);
            let got = c.get_compressed_matrix_entry(p, q);
            ck!(got == want, "block ({p}, {q}): got {got:#018x} want {want:#018x}");
        }
    }
    let probes: Vec<(u64, u64)> = m.bits.keys().copied().take(40).collect();
    for (x, y) in probes {
        for i in 0..8u64 {
            for j in 0..8u64 {
                let (a, b) = (x * 8 + i, y * 8 + j);
                let want = m.has(a, b);
                ck!(
                    c.does_edge_exist(a, b) == want,
                    "compressed does_edge_exist({a}, {b}): want {want}"
                );
            }
        }
        for (a, b) in [
            ((x * 8).wrapping_add(8), y * 8),
            (x * 8, (y * 8).wrapping_add(8)),
            ((x * 8).wrapping_sub(1), y * 8),
            (x * 8, (y * 8).wrapping_sub(1)),
            (y * 8, x * 8),
            (y * 8 + 7, x * 8 + 3),
            (u64::MAX, y * 8),
            (x * 8, u64::MAX),
        ] {
            let want = m.has(a, b);
            ck!(
                c.does_edge_exist(a, b) == want,
                "compressed does_edge_exist({a}, {b}): want {want}"
            );
        }
    }
    for (a, b) in [(0, 0), (m.n, 0), (0, m.n), (m.n.wrapping_sub(1), m.n.wrapping_sub(1)), (u64::MAX, u64::MAX)] {
        let want = m.has(a, b);
        ck!(
            c.does_edge_exist(a, b) == want,
            "compressed does_edge_exist({a}, {b}): want {want}"
        );
    }
    if m.dim() <= 14 {
        let s = c.matrix_string().map_err(|e| format!("compressed matrix_string: {e:?}"))?;
        eq("compressed matrix_string", s, m.matrix_string())?;
    }
    Ok(())
}

/// A compressed graph's bytes against the layout, in any block order.
pub fn compressed_bytes(m: &CModel, bytes: &[u8]) -> Res {
    ck!(
        bytes.len() == 42 + 24 * m.bits.len(),
        "compressed bytes: {} bytes for {} blocks",
        bytes.len(),
        m.bits.len()
    );
    let want = m.bytes(&(0..m.bits.len()).collect::<Vec<_>>());
    eq("compressed byte header", &bytes[..42], &want[..42])?;
    eq("compressed byte blocks", triples(&bytes[42..]), triples(&want[42..]))
}

fn triples(b: &[u8]) -> Vec<&[u8]> {
    let mut v: Vec<&[u8]> = b.chunks(24).collect();
    v.sort_unstable();
    v
}

/// A graph's bytes against the layout, in any edge order.
pub fn graph_bytes(m: &Model, bytes: &[u8]) -> Res {
    ck!(
        bytes.len() == 26 + 16 * m.e.len(),
        "graph bytes: {} bytes for {} edges",
        bytes.len(),
        m.e.len()
    );
    let want = m.bytes(&(0..m.e.len()).collect::<Vec<_>>());
    eq("graph byte header", &bytes[..26], &want[..26])?;
    let mut got: Vec<&[u8]> = bytes[26..].chunks(16).collect();
    let mut exp: Vec<&[u8]> = want[26..].chunks(16).collect();
    got.sort_unstable();
    exp.sort_unstable();
    eq("graph byte edges", got, exp)
}

/// Checks a pooled matrix for block dimension `b` (raw, unclamped) against exact counts.
pub fn pooled(m: &Model, b: u64, p: &CsrSquareMatrix<f64>) -> Res {
    if m.n == 0 {
        eq("pool dimension of empty graph", p.dimension(), 0)?;
        eq("pool entries of empty graph", p.entry_count(), 0)?;
        ck!(p.into_iter().next().is_none(), "pool of empty graph iterates");
        return Ok(());
    }
    let b = b.clamp(1, m.n);
    let dim = m.n / b + u64::from(m.n % b != 0);
    eq("pool dimension", p.dimension(), dim)?;
    let counts = m.block_counts(b);
    eq("pool entry_count", p.entry_count(), counts.len() as u64)?;
    let mut seen = BTreeSet::new();
    for (v, c, r) in p {
        ck!(seen.insert((c, r)), "pool iterates ({c}, {r}) twice");
        let Some(&k) = counts.get(&(c, r)) else {
            return Err(format!("pool stores {v} for the empty block ({c}, {r})"));
        };
        pool_value(k, b, v).map_err(|e| format!("pool entry ({c}, {r}): {e}"))?;
        let g = p.get_entry(c, r);
        ck!(g == v, "pool get_entry({c}, {r}) = {g}, iterated {v}");
        let want = counts.contains_key(&(r, c));
        ck!(
            (p.get_entry(r, c) != 0.0) == want,
            "pool get_entry({r}, {c}) presence: want {want}"
        );
    }
    eq("pool iterated entries", seen.len(), counts.len())?;
    for (c, r) in [(dim, 0), (0, dim), (dim.wrapping_sub(1), dim.wrapping_sub(1)), (u64::MAX, 0)] {
        let want = counts.contains_key(&(c, r));
        ck!((p.get_entry(c, r) != 0.0) == want, "pool get_entry({c}, {r})");
    }
    Ok(())
}

/// k edges in a b x b block: exact where doubles are exact, within a few ulps elsewhere.
pub fn pool_value(k: u64, b: u64, v: f64) -> Res {
    let area = u128::from(b) * u128::from(b);
    let want = k as f64 / area as f64;
    ck!(v > 0.0 && v <= 1.0, "{v} is outside (0, 1]");
    let exact = u128::from(k) == area || area.is_power_of_two();
    if exact {
        ck!(v == want, "got {v:e} want {want:e} ({k} of {area})");
    } else {
        ck!(
            (v - want).abs() <= want * 1e-14,
            "got {v:e} want {want:e} ({k} of {area})"
        );
    }
    Ok(())
}

/// Whether a block of k edges reaches the threshold: None when too close to call.
pub fn reaches(k: u64, b: u64, threshold: f64) -> Option<bool> {
    let area = u128::from(b) * u128::from(b);
    let t = threshold.clamp(1e-18, 1.0);
    if k == 0 {
        return Some(false);
    }
    if u128::from(k) == area {
        return Some(true);
    }
    let avg = k as f64 / area as f64;
    if area.is_power_of_two() {
        return Some(avg >= t);
    }
    if (avg - t).abs() <= t * 4e-16 {
        return None;
    }
    Some(avg >= t)
}

/// Checks an approximation: every block decided as `reaches` says, and where that is too close
/// to call as the pooled average does, if given.
pub fn approximated(
    m: &Model,
    b: u64,
    t: f64,
    g: &Graph,
    pool: Option<&CsrSquareMatrix<f64>>,
    undecided: &mut u64,
) -> Res {
    if b <= 1 || m.n <= 1 {
        return full(m, g, &[]);
    }
    let b = b.min(m.n);
    let dim = m.n / b + u64::from(m.n % b != 0);
    eq("approximation direction", g.is_undirected(), m.und)?;
    eq("approximation vertex_count", g.vertex_count(), dim)?;
    let set = edges_of(g)?;
    eq("approximation edge_count", g.edge_count(), set.len() as u64)?;
    let counts = m.block_counts(b);
    for (&(c, r), &k) in &counts {
        let got = set.contains(&(c, r));
        match reaches(k, b, t) {
            Some(want) => ck!(
                got == want,
                "block ({c}, {r}) with {k} of {b}x{b} edges at threshold {t:e}: edge {got}, want {want}"
            ),
            None => {
                *undecided += 1;
                if let Some(avg) = pool.map(|p| p.get_entry(c, r)) {
                    ck!(
                        got == (avg >= t.clamp(1e-18, 1.0)),
                        "block ({c}, {r}) with {k} of {b}x{b} edges, pooled to {avg:e}, at threshold {t:e}: edge {got}"
                    );
                }
            }
        }
        ck!(
            g.does_edge_exist(c, r) == got,
            "approximation views disagree on ({c}, {r})"
        );
    }
    for e in &set {
        ck!(counts.contains_key(e), "approximation has edge {e:?} for an empty block");
    }
    // The remaining views against the edges it has.
    full(&Model { und: m.und, n: dim, e: set }, g, &[])
}
