//! Large cases in an unoptimised build, each in a process of its own and there in a thread
//! with the standard 2 MiB stack. A property that holds for small graphs must also hold for
//! tens of thousands of edges, blocks or emptied columns, whatever build it runs in.
//!
//! gxdeep run PROP --tier T --seed N --evidence F --replays D
//! gxdeep replay PROP FILE
//! gxdeep case PROP KIND N KEEP UNDIRECTED SEED
use graphrox::builder::CompressedGraphBuilder;
use graphrox::matrix::{CsrAdjacencyMatrix, CsrSquareMatrix, MatrixRepresentation};
use graphrox::{CompressedGraph, Graph, GraphRepresentation};
use std::collections::{BTreeMap, BTreeSet};
use std::os::unix::process::ExitStatusExt;
use std::process::{Command, Stdio};
use std::time::Instant;

type Pairs = BTreeSet<(u64, u64)>;

struct Rng(u64);

impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
}

#[derive(Clone, Copy, PartialEq)]
struct Case {
    kind: u64,
    n: u64,
    /// Pairs that stay when the others are taken out again; u64::MAX: all stay.
    keep: u64,
    undirected: bool,
    seed: u64,
}

const KINDS: [&str; 5] = ["chain", "fan out", "fan in", "one pair in each block", "dense corner"];

impl Case {
    fn json(&self, prop: &str, message: &str) -> String {
        format!(
            "{{\"property\":\"{prop}\",\"deep\":true,\"kind\":{},\"shape\":\"{}\",\"n\":{},\"keep\":{},\"undirected\":{},\"seed\":{},\"failure\":\"{}\"}}",
            self.kind, KINDS[self.kind as usize], self.n, self.keep, self.undirected as u64, self.seed,
            message.replace(['"', '\\', '\n'], " ")
        )
    }

    fn parse(text: &str) -> Case {
        let get = |k: &str| -> u64 {
            let at = text.find(&format!("\"{k}\":")).expect("field") + k.len() + 3;
            let t = text[at..].trim_start();
            t[..t.find(|c: char| !c.is_ascii_digit()).unwrap_or(t.len())].parse().expect("number")
        };
        Case { kind: get("kind"), n: get("n"), keep: get("keep"), undirected: get("undirected") == 1, seed: get("seed") }
    }

    fn pairs(&self, small: bool) -> Vec<(u64, u64)> {
        let mut r = Rng(self.seed);
        let n = match small {
            true if self.kind == 3 => self.n.min(40),
            true => self.n.min(250),
            false => self.n,
        };
        let shift = r.below(20);
        (0..n)
            .map(|i| match self.kind {
                0 => (i + shift, i + shift + 1),
                1 => (shift, i),
                2 => (i, shift),
                3 => (8 * i + r.below(8), 8 * i + r.below(8)),
                _ => {
                    let side = 8 + 2 * (n as f64).sqrt() as u64;
                    (r.below(side), r.below(side))
                }
            })
            .collect()
    }

    /// The pairs to put in, those to take out again, and what is left.
    fn history(&self, small: bool) -> (Vec<(u64, u64)>, Vec<(u64, u64)>, Pairs) {
        let put = self.pairs(small);
        let mut left: Pairs = put.iter().copied().collect();
        let mut out = Vec::new();
        if self.keep != u64::MAX {
            let all: Vec<_> = left.iter().copied().collect();
            let mut r = Rng(self.seed ^ 1);
            let stay: BTreeSet<u64> = (0..self.keep).map(|_| r.below(all.len() as u64)).collect();
            for (i, p) in all.iter().enumerate() {
                if !stay.contains(&(i as u64)) {
                    left.remove(p);
                    out.push(*p);
                }
            }
        }
        if self.undirected {
            // A deletion takes both directions out.
            let gone: Pairs = out.iter().flat_map(|&(a, b)| [(a, b), (b, a)]).collect();
            left = left.iter().flat_map(|&(a, b)| [(a, b), (b, a)]).filter(|p| !gone.contains(p)).collect();
        }
        (put, out, left)
    }

    fn graph(&self, small: bool) -> (Graph, Pairs) {
        let (put, out, left) = self.history(small);
        let mut g = if self.undirected { Graph::new_undirected() } else { Graph::new_directed() };
        for (a, b) in put {
            g.add_edge(a, b);
        }
        for (a, b) in out {
            g.delete_edge(a, b);
        }
        (g, left)
    }
}

macro_rules! eq {
    ($what:expr, $got:expr, $want:expr) => {
        let (got, want) = (&$got, &$want);
        if got != want {
            let (g, w) = (format!("{got:?}"), format!("{want:?}"));
            return Err(format!("{}: got {:.200} want {:.200}", $what, g, w));
        }
    };
}

fn same_graph(what: &str, g: &Graph, want: &Pairs) -> Result<(), String> {
    eq!(format!("{what}: edge count"), g.edge_count(), want.len() as u64);
    let mut got: Vec<(u64, u64)> = g.into_iter().collect();
    got.sort_unstable();
    if !got.iter().eq(want.iter()) {
        return Err(format!("{what}: iteration gives {} pairs, other than the {} edges", got.len(), want.len()));
    }
    Ok(())
}

fn blocks(edges: &Pairs) -> BTreeMap<(u64, u64), u64> {
    let mut m = BTreeMap::new();
    for &(a, b) in edges {
        *m.entry((a / 8, b / 8)).or_insert(0u64) |= 1u64 << (8 * (b % 8) + a % 8);
    }
    m
}

fn check(prop: &str, c: &Case) -> Result<(), String> {
    match prop {
        "P01" | "P02" => {
            let (g, want) = c.graph(false);
            same_graph("graph", &g, &want)?;
            let mut ins: BTreeMap<u64, Vec<u64>> = BTreeMap::new();
            let mut outs: BTreeMap<u64, Vec<u64>> = BTreeMap::new();
            for &(a, b) in &want {
                outs.entry(a).or_default().push(b);
                ins.entry(b).or_default().push(a);
            }
            let mut r = Rng(c.seed ^ 2);
            let some: Vec<u64> = (0..4).map(|_| r.below(g.vertex_count().max(1))).chain([0]).collect();
            let busiest = |m: &BTreeMap<u64, Vec<u64>>| m.iter().max_by_key(|e| e.1.len()).map(|e| *e.0);
            for v in some.into_iter().chain(busiest(&ins)).chain(busiest(&outs)) {
                let (mut i, mut o) = (g.get_vertex_in_edges(v), g.get_vertex_out_edges(v));
                i.sort_unstable();
                o.sort_unstable();
                eq!(format!("in-edges of {v}"), i, ins.get(&v).cloned().unwrap_or_default());
                eq!(format!("out-edges of {v}"), o, outs.get(&v).cloned().unwrap_or_default());
                eq!(format!("in-degree of {v}"), g.get_vertex_in_degree(v), i.len() as u64);
                eq!(format!("out-degree of {v}"), g.get_vertex_out_degree(v), o.len() as u64);
            }
            if prop == "P02" {
                let mut m = CsrAdjacencyMatrix::new();
                let (put, out, _) = c.history(false);
                for (a, b) in put {
                    m.set_entry(1, a, b);
                    m.set_entry(1, b, a);
                }
                for (a, b) in out {
                    m.zero_entry(a, b);
                    m.zero_entry(b, a);
                }
                let u = Case { undirected: true, ..*c };
                let g = Graph::undirected_from(m).map_err(|e| format!("from a symmetric matrix: {e:?}"))?;
                same_graph("from a symmetric matrix", &g, &u.history(false).2)?;
            }
        }
        "P03" => {
            let (g, want) = c.graph(false);
            let mut h = g.clone();
            same_graph("clone", &h, &want)?;
            h.add_edge(1, u32::MAX as u64);
            same_graph("source of an edited clone", &g, &want)?;
            let z = g.compress(1);
            same_graph("decompressed clone", &z.clone().decompress(), &want)?;
            same_graph("source of a compressed graph", &g, &want)?;
        }
        "P04" | "P05" => {
            let (g, want) = c.graph(false);
            let b = g.to_bytes().map_err(|e| format!("to_bytes: {e:?}"))?;
            head(&b, want.len())?;
            let h = Graph::try_from(b.as_slice()).map_err(|e| format!("loading: {e:?}"))?;
            eq!("vertex count", h.vertex_count(), g.vertex_count());
            same_graph("loaded graph", &h, &want)?;
            if Graph::try_from(&b[..b.len() - 1]).is_ok() {
                return Err("bytes without their last one are loaded".into());
            }
        }
        "P06" | "P07" | "P08" | "P09" => {
            let (g, want) = c.graph(false);
            let mut z = g.compress(1);
            if matches!(prop, "P06" | "P07") {
                let b = z.to_bytes().map_err(|e| format!("to_bytes: {e:?}"))?;
                if CompressedGraph::try_from(&b[..b.len() - 1]).is_ok() {
                    return Err("bytes without their last one are loaded".into());
                }
                z = CompressedGraph::try_from(b.as_slice()).map_err(|e| format!("loading: {e:?}"))?;
            }
            eq!("vertex count", z.vertex_count(), g.vertex_count());
            eq!("edge count", z.edge_count(), want.len() as u64);
            if prop == "P09" {
                same_graph("decompressed graph", &z.decompress(), &want)?;
                return Ok(());
            }
            for ((x, y), word) in blocks(&want) {
                eq!(format!("block ({x}, {y})"), z.get_compressed_matrix_entry(x, y), word);
            }
            // Only the full blocks.
            let full: Pairs = want.iter().copied()
                .filter(|p| blocks_of(&want, p.0 / 8, p.1 / 8) >= 5).collect();
            let z = g.compress(5);
            eq!("edge count at level 5", z.edge_count(), full.len() as u64);
        }
        "P10" | "P11" => {
            let (g, want) = c.graph(false);
            for b in [1, 2, 8, 1000].map(|b: u64| b.min(g.vertex_count().max(1))) {
                let mut counts: BTreeMap<(u64, u64), u64> = BTreeMap::new();
                for &(x, y) in &want {
                    *counts.entry((x / b, y / b)).or_default() += 1;
                }
                if prop == "P10" {
                    let m = g.find_avg_pool_matrix(b);
                    let mut got: Vec<(u64, u64, f64)> = m.into_iter().map(|(v, x, y)| (x, y, v)).collect();
                    got.sort_by(|p, q| p.partial_cmp(q).unwrap());
                    eq!("entries", got.len(), counts.len());
                    for ((x, y, v), (at, k)) in got.into_iter().zip(&counts) {
                        eq!("place of an entry", (x, y), *at);
                        if (v - *k as f64 / (b * b) as f64).abs() > 1e-12 {
                            return Err(format!("average at {at:?}: {v} for {k} edges in blocks of {b}"));
                        }
                    }
                } else {
                    let h = g.approximate(b, 1e-18);
                    same_graph("approximation", &h, &counts.into_keys().collect())?;
                }
            }
        }
        "P12" => {
            let (put, out, want) = Case { undirected: false, ..*c }.history(false);
            let mut m = CsrAdjacencyMatrix::new();
            for &(a, b) in &put {
                m.set_entry(1, a, b);
            }
            for &(a, b) in &out {
                m.zero_entry(a, b);
            }
            eq!("entry count", m.entry_count(), want.len() as u64);
            let mut got: Vec<_> = m.into_iter().collect();
            got.sort_unstable();
            if !got.iter().eq(want.iter()) {
                return Err(format!("iteration gives {} entries, other than the {} set", got.len(), want.len()));
            }
            let (a, b) = put[put.len() / 2];
            let mut col = m.get_sparse_col_vector(a);
            col.sort_unstable();
            eq!("column", col, want.iter().filter(|p| p.0 == a).map(|p| p.1).collect::<Vec<_>>());
            let mut row = m.get_sparse_row_vector(b);
            row.sort_unstable();
            eq!("row", row, want.iter().filter(|p| p.1 == b).map(|p| p.0).collect::<Vec<_>>());
        }
        "P13" => {
            let (put, out, _) = Case { undirected: false, ..*c }.history(false);
            let mut m: CsrSquareMatrix<u32> = CsrSquareMatrix::new();
            let mut want: BTreeMap<(u64, u64), u32> = BTreeMap::new();
            for (i, &(a, b)) in put.iter().enumerate() {
                if i % 3 == 0 {
                    m.set_entry(7, a, b);
                    want.insert((a, b), 7);
                } else {
                    m.increment_entry(a, b);
                    *want.entry((a, b)).or_default() += 1;
                }
            }
            for &(a, b) in &out {
                m.zero_entry(a, b);
                want.remove(&(a, b));
            }
            eq!("entry count", m.entry_count(), want.len() as u64);
            let mut got: Vec<_> = m.into_iter().map(|(v, x, y)| ((x, y), v)).collect();
            got.sort_unstable();
            if !got.into_iter().eq(want) {
                return Err("iteration gives other entries than were set".into());
            }
        }
        "P14" => {
            let (g, want) = c.graph(true);
            let n = g.vertex_count();
            let mut text = String::new();
            for y in 0..n {
                text.push_str(if y > 0 { "\r\n[ " } else { "[ " });
                for x in 0..n {
                    text.push_str(if x > 0 { ", " } else { "" });
                    text.push(if want.contains(&(x, y)) { '1' } else { '0' });
                }
                text.push_str(" ]");
            }
            let got = g.matrix_string().map_err(|e| format!("{e:?}"))?;
            if got != text {
                return Err(format!("the text of a graph of {n} vertices is wrong"));
            }
        }
        "P15" => {
            let (put, _, _) = Case { keep: u64::MAX, undirected: false, ..*c }.history(true);
            let mut m: CsrSquareMatrix<u32> = CsrSquareMatrix::new();
            let mut want = BTreeMap::new();
            for (i, &(a, b)) in put.iter().enumerate() {
                m.set_entry(1 + i as u32 % 9, a, b);
                want.insert((a, b), 1 + i as u32 % 9);
            }
            let n = m.dimension();
            let line = |y: u64| {
                let cells: Vec<_> = (0..n).map(|x| want.get(&(x, y)).copied().unwrap_or(0).to_string()).collect();
                format!("[ {} ]", cells.join(", "))
            };
            let text = (0..n).map(line).collect::<Vec<_>>().join("\r\n");
            if m.to_string_with_precision(0).map_err(|e| format!("{e:?}"))? != text {
                return Err(format!("the text of a matrix of dimension {n} is wrong"));
            }
        }
        "P17" => {
            let want: Pairs = c.pairs(false).into_iter().collect();
            let n = want.iter().map(|p| p.0.max(p.1)).max().unwrap_or(0) + 1;
            let mut b = CompressedGraphBuilder::new(false, n, 1);
            let all = blocks(&want);
            for (i, (&(x, y), &word)) in all.iter().enumerate() {
                b.add_compressed_matrix_entry(word, x, y, if i % 2 == 0 { None } else { Some(word.count_ones() as u64) });
            }
            let z = unsafe { b.finish() };
            eq!("edge count", z.edge_count(), want.len() as u64);
            same_graph("decompressed graph", &z.decompress(), &want)?;
        }
        _ => return Err(format!("no large cases for {prop}")),
    }
    Ok(())
}

fn head(b: &[u8], edges: usize) -> Result<usize, String> {
    if b.len() < 16 * edges {
        return Err(format!("{} bytes for {edges} edges", b.len()));
    }
    Ok(b.len() - 16 * edges)
}

fn blocks_of(edges: &Pairs, x: u64, y: u64) -> usize {
    (8 * x..8 * x + 8).map(|a| edges.range((a, 8 * y)..(a, 8 * y + 8)).count()).sum()
}

fn start(prop: &str, c: &Case) -> std::process::Child {
    Command::new(std::env::current_exe().expect("exe"))
        .args(["case", prop])
        .args([c.kind, c.n, c.keep, c.undirected as u64, c.seed].map(|v| v.to_string()))
        .stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped())
        .spawn().expect("spawn")
}

/// None, or what is wrong.
fn finish(child: std::process::Child) -> Option<String> {
    let out = child.wait_with_output().expect("wait");
    if let Some(sig) = out.status.signal() {
        if sig == 9 || sig == 15 {
            eprintln!("a case was ended from outside by signal {sig}");
            std::process::exit(2);
        }
        let err = String::from_utf8_lossy(&out.stderr);
        return Some(format!("the process dies with signal {sig}: {}", err.lines().find(|l| l.contains("overflow")).unwrap_or("")));
    }
    match out.status.code() {
        Some(0) => None,
        _ => Some(String::from_utf8_lossy(&out.stdout).trim().to_string()),
    }
}

fn run(prop: &str, tier: &str, seed: u64, evidence: &str, replays: &str) -> i32 {
    let started = Instant::now();
    let (count, top) = if tier == "thorough" { (160, 20) } else { (20, 17) };
    let mut r = Rng(seed.wrapping_mul(0x1234_5678_9abc_def1) ^ u64::from_le_bytes(*b"gxdeep\0\0"));
    let mut cases = Vec::new();
    for i in 0..count {
        let n = (1 << (15 + r.below(top - 14))) + r.below(1 << 14);
        let keep = if i % 2 == 0 { r.below(4) } else { u64::MAX };
        cases.push(Case { kind: i / 2 % 5, n, keep, undirected: r.below(2) == 0, seed: r.next() >> 1 });
    }
    let mut failure: Option<(Case, String)> = None;
    let mut done = 0;
    for chunk in cases.chunks(8) {
        let running: Vec<_> = chunk.iter().map(|c| (*c, start(prop, c))).collect();
        for (c, child) in running {
            done += 1;
            if let Some(m) = finish(child) {
                failure.get_or_insert((c, m));
            }
        }
        if failure.is_some() {
            break;
        }
    }
    if let Some((c, m)) = &mut failure {
        // Smaller while it still fails.
        while c.n > 1 && started.elapsed().as_secs() < 120 {
            let half = [Case { n: c.n / 2, ..*c }, Case { n: c.n - c.n / 8 - 1, ..*c }];
            let Some((h, w)) = half.into_iter().find_map(|h| finish(start(prop, &h)).map(|w| (h, w))) else { break };
            (*c, *m) = (h, w);
        }
    }
    let samples: Vec<String> = cases.iter().take(3).map(|c| c.json(prop, "")).collect();
    let labels: Vec<String> = (0..KINDS.len())
        .map(|k| format!("\"{}\":{}", KINDS[k], cases[..done].iter().filter(|c| c.kind == k as u64).count()))
        .collect();
    let text = format!(
        "{{\"evaluations\":{done},\"distinct_nontrivial\":{},\"rule\":\"tens of thousands of pairs put in, and all or all but a few of them taken out again in half of the cases; unoptimised build, 2 MiB stack\",\"samples\":[{}],\"labels\":{{{}}},\"wall_s\":{:.2},\"violations\":{}}}",
        cases[..done].iter().map(|c| c.json(prop, "")).collect::<BTreeSet<_>>().len(),
        samples.join(","), labels.join(","), started.elapsed().as_secs_f64(), failure.is_some() as u64
    );
    std::fs::write(evidence, text).expect("evidence");
    println!("{prop}: {done} large cases in an unoptimised build, {} failures, {:.1}s", failure.is_some() as u64, started.elapsed().as_secs_f64());
    let Some((c, m)) = failure else { return 0 };
    std::fs::create_dir_all(replays).expect("replays");
    let path = format!("{replays}/{prop}-deep-{seed}.json");
    std::fs::write(&path, c.json(prop, &m)).expect("replay");
    println!("failure: {m}");
    println!("case: {}", c.json(prop, ""));
    println!("VIOLATION property={prop} replay={path}");
    1
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let opt = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned().unwrap_or_default();
    let prop = a.get(2).cloned().unwrap_or_default();
    let code = match a.get(1).map(String::as_str) {
        Some("run") => run(&prop, &opt("--tier"), opt("--seed").parse().unwrap_or(1), &opt("--evidence"), &opt("--replays")),
        Some("replay") => {
            let c = Case::parse(&std::fs::read_to_string(&a[3]).expect("replay file"));
            match finish(start(&prop, &c)) {
                None => {
                    println!("{prop}: the saved case passes");
                    0
                }
                Some(m) => {
                    println!("failure: {m}");
                    println!("VIOLATION property={prop} replay={}", a[3]);
                    1
                }
            }
        }
        Some("case") => {
            let v: Vec<u64> = a[3..8].iter().map(|x| x.parse().expect("number")).collect();
            let c = Case { kind: v[0], n: v[1], keep: v[2], undirected: v[3] == 1, seed: v[4] };
            let r = std::thread::Builder::new().stack_size(2 << 20).spawn(move || check(&prop, &c)).expect("thread").join();
            match r {
                Ok(Ok(())) => 0,
                Ok(Err(m)) => {
                    println!("{m}");
                    1
                }
                Err(e) => {
                    let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string()));
                    println!("panic: {}", m.unwrap_or_default());
                    1
                }
            }
        }
        _ => 2,
    };
    std::process::exit(code);
}
