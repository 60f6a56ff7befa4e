//! P18 (values), P19 (ownership), P20 (null), P21 (loading) of the C interface.
//!
//! The worker runs with `libgxshim.so` preloaded: a C program's calls through the published
//! header, linked to the real shared library, over the memory oracle of `libgxmem.so`.
use crate::fw::{boxed, Ctx, Prop, Res, Tier};
use crate::gen::*;
use crate::model::{self, render, CModel, Model, Verdict};
use crate::props::pool::{tsel, TSel};
use crate::props::threads::{self, Ans, Lib};
use crate::props::bytes::{large_compressed_bytes, large_graph_bytes, compressed_like_bytes, graph_like_bytes, RawBytes};
use crate::views::{self, ck, eq};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::ffi::{c_char, c_int, c_uint, c_void, CStr};
use std::sync::OnceLock;

type P = *mut c_void;
type Cp = *const c_void;

macro_rules! api {
    ($($name:ident($($t:ty),*) $(-> $r:ty)?;)*) => {
        pub struct Api { $(pub $name: unsafe extern "C" fn($($t),*) $(-> $r)?),* }
        impl Api {
            fn load() -> Api {
                unsafe { Api { $($name: {
                    let s = concat!(stringify!($name), "\0");
                    let p = libc::dlsym(libc::RTLD_DEFAULT, s.as_ptr() as *const c_char);
                    if p.is_null() {
                        eprintln!("{} is not loaded (LD_PRELOAD)", stringify!($name));
                        std::process::exit(2);
                    }
                    std::mem::transmute::<P, unsafe extern "C" fn($($t),*) $(-> $r)?>(p)
                }),* } }
            }
        }
    };
}

api! {
    gx_check();
    gx_reset();
    gx_live_blocks() -> usize;
    gx_live_bytes() -> usize;
    gx_error() -> *const c_char;
    gx_is_live(Cp, usize) -> c_int;
    sx_error_code() -> c_uint;
    sx_free_string(Cp);
    sx_free_bytes(Cp, usize);
    sx_free_graph(P);
    sx_free_edges(Cp, usize);
    sx_free_vertices(Cp, usize);
    sx_free_compressed(P);
    sx_free_matrix(P);
    sx_free_entries(Cp, usize);
    sx_edge_size() -> usize;
    sx_vertex_size() -> usize;
    sx_entry_size() -> usize;
    sx_edge_at(Cp, usize, *mut u64);
    sx_vertex_at(Cp, usize) -> u64;
    sx_entry_at(Cp, usize, *mut u64) -> f64;
    sx_new(c_int) -> P;
    sx_from_bytes(*const u8, usize, *mut u8) -> P;
    sx_duplicate(P) -> P;
    sx_matrix_string(P) -> Cp;
    sx_to_bytes(P, *mut usize) -> Cp;
    sx_is_undirected(P) -> i64;
    sx_vertex_count(P) -> u64;
    sx_edge_count(P) -> u64;
    sx_does_edge_exist(P, u64, u64) -> i64;
    sx_pool(P, u64) -> P;
    sx_approximate(P, u64, f64) -> P;
    sx_compress(P, u8) -> P;
    sx_edge_list(P, *mut usize) -> Cp;
    sx_add_vertex(P, u64, *const u64, usize);
    sx_add_edge(P, u64, u64);
    sx_delete_edge(P, u64, u64);
    sx_in_list(P, u64, *mut usize) -> Cp;
    sx_out_list(P, u64, *mut usize) -> Cp;
    sx_in_degree(P, u64) -> u64;
    sx_out_degree(P, u64) -> u64;
    sx_c_duplicate(P) -> P;
    sx_c_level(P) -> u64;
    sx_c_is_undirected(P) -> i64;
    sx_c_vertex_count(P) -> u64;
    sx_c_edge_count(P) -> u64;
    sx_c_does_edge_exist(P, u64, u64) -> i64;
    sx_c_entry(P, u64, u64) -> u64;
    sx_c_matrix_string(P) -> Cp;
    sx_c_to_bytes(P, *mut usize) -> Cp;
    sx_c_from_bytes(*const u8, usize, *mut u8) -> P;
    sx_decompress(P) -> P;
    sx_m_duplicate(P) -> P;
    sx_m_dimension(P) -> u64;
    sx_m_entry_count(P) -> u64;
    sx_m_get(P, u64, u64) -> f64;
    sx_m_string(P) -> Cp;
    sx_m_string_with(P, usize) -> Cp;
    sx_m_entries(P, *mut usize) -> Cp;
}

fn api() -> &'static Api {
    static A: OnceLock<Api> = OnceLock::new();
    A.get_or_init(Api::load)
}

/// Calls an entry of the C interface.
macro_rules! c {
    ($f:ident($($a:expr),* $(,)?)) => { unsafe { (api().$f)($($a),*) } };
}

/// Caller memory ending (or starting) at an inaccessible page, read-only during the call and
/// inaccessible afterwards, so that overruns, writes and kept references fault.
struct Guarded {
    map: *mut u8,
    len: usize,
    data: *mut u8,
}

const PAGE: usize = 4096;

impl Guarded {
    fn new(bytes: &[u8], at_start: bool) -> Self {
        let body = bytes.len().div_ceil(PAGE).max(1) * PAGE;
        let len = body + 2 * PAGE;
        unsafe {
            let map = libc::mmap(
                std::ptr::null_mut(),
                len,
                libc::PROT_NONE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS,
                -1,
                0,
            ) as *mut u8;
            assert!(map as isize != -1, "mmap");
            let first = map.add(PAGE);
            libc::mprotect(first as P, body, libc::PROT_READ | libc::PROT_WRITE);
            libc::memset(first as P, 0xA7, body);
            let data = if at_start { first } else { first.add(body - bytes.len()) };
            std::ptr::copy_nonoverlapping(bytes.as_ptr(), data, bytes.len());
            libc::mprotect(first as P, body, libc::PROT_READ);
            Guarded { map, len, data }
        }
    }
    fn close(&self) {
        unsafe { libc::mprotect(self.map as P, self.len, libc::PROT_NONE) };
    }
}

impl Drop for Guarded {
    fn drop(&mut self) {
        unsafe { libc::munmap(self.map as P, self.len) };
    }
}

/// A length out-parameter between canaries, holding junk beforehand.
struct Len([usize; 3]);
const JUNK: usize = 0xA5A5_A5A5_A5A5_A5A5;
impl Len {
    fn new() -> Self {
        Len([JUNK; 3])
    }
    fn ptr(&mut self) -> *mut usize {
        &mut self.0[1]
    }
    fn get(&self, what: &str) -> Result<usize, String> {
        ck!(self.0[0] == JUNK && self.0[2] == JUNK, "{what}: wrote beside the length");
        ck!(self.0[1] != JUNK, "{what}: did not set the length");
        Ok(self.0[1])
    }
}

fn memory_error() -> Res {
    let s = unsafe { CStr::from_ptr((api().gx_error)()) };
    ck!(s.to_bytes().is_empty(), "{}", s.to_string_lossy());
    Ok(())
}

/// `len` items of `size` bytes at `p` are memory the library handed out.
fn owned(what: &str, p: Cp, len: usize, size: usize) -> Res {
    if len == 0 {
        return Ok(());
    }
    let bytes = len.checked_mul(size).ok_or(format!("{what}: absurd length {len}"))?;
    ck!(!p.is_null(), "{what}: null with length {len}");
    ck!(c!(gx_is_live(p, bytes)) == 1, "{what}: {len} items do not fit the memory returned");
    Ok(())
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Text,
    Bytes,
    Edges,
    Vertices,
    Entries,
}

/// A buffer or list owned by the caller.
struct Item {
    kind: Kind,
    p: Cp,
    len: usize,
    copy: Vec<u8>,
}

impl Item {
    fn size(kind: Kind) -> usize {
        match kind {
            Kind::Text | Kind::Bytes => 1,
            Kind::Edges => c!(sx_edge_size()),
            Kind::Vertices => c!(sx_vertex_size()),
            Kind::Entries => c!(sx_entry_size()),
        }
    }
    fn raw(&self) -> &[u8] {
        let n = self.len * Self::size(self.kind) + usize::from(self.kind == Kind::Text);
        if n == 0 {
            &[]
        } else {
            unsafe { std::slice::from_raw_parts(self.p as *const u8, n) }
        }
    }
    fn new(what: &str, kind: Kind, p: Cp, len: usize) -> Result<Item, String> {
        owned(what, p, len, Self::size(kind))?;
        let mut i = Item { kind, p, len, copy: Vec::new() };
        i.copy = i.raw().to_vec();
        Ok(i)
    }
    fn text(what: &str, p: Cp) -> Result<Item, String> {
        ck!(!p.is_null(), "{what}: null");
        let mut len = 0;
        loop {
            ck!(c!(gx_is_live(p, len + 1)) == 1, "{what}: text runs past its memory");
            if unsafe { *(p as *const u8).add(len) } == 0 {
                break;
            }
            len += 1;
        }
        let mut i = Item { kind: Kind::Text, p, len, copy: Vec::new() };
        i.copy = i.raw().to_vec();
        Ok(i)
    }
    fn some_text(what: &str, p: Cp) -> Result<Option<Item>, String> {
        if p.is_null() {
            return Ok(None);
        }
        Item::text(what, p).map(Some)
    }
    fn unchanged(&self) -> Res {
        ck!(
            c!(gx_is_live(self.p, self.copy.len())) == 1 || self.copy.is_empty(),
            "a {:?} result was released behind the caller's back",
            self.kind
        );
        ck!(self.raw() == self.copy, "a {:?} result changed while it was held", self.kind);
        Ok(())
    }
    fn release(self) {
        match self.kind {
            Kind::Text => c!(sx_free_string(self.p)),
            Kind::Bytes => c!(sx_free_bytes(self.p, self.len)),
            Kind::Edges => c!(sx_free_edges(self.p, self.len)),
            Kind::Vertices => c!(sx_free_vertices(self.p, self.len)),
            Kind::Entries => c!(sx_free_entries(self.p, self.len)),
        }
    }
    fn as_text(&self) -> String {
        String::from_utf8_lossy(&self.copy[..self.len]).into_owned()
    }
    fn as_edges(&self) -> Vec<(u64, u64)> {
        let mut o = [0u64; 2];
        (0..self.len)
            .map(|i| {
                c!(sx_edge_at(self.p, i, o.as_mut_ptr()));
                (o[0], o[1])
            })
            .collect()
    }
    fn as_vertices(&self) -> Vec<u64> {
        (0..self.len).map(|i| c!(sx_vertex_at(self.p, i))).collect()
    }
    fn as_entries(&self) -> Vec<(f64, u64, u64)> {
        let mut o = [0u64; 2];
        (0..self.len)
            .map(|i| {
                let v = c!(sx_entry_at(self.p, i, o.as_mut_ptr()));
                (v, o[0], o[1])
            })
            .collect()
    }
}

/// A list or buffer function's result. Empty lists may be any pointer.
fn list(what: &str, kind: Kind, f: impl FnOnce(*mut usize) -> Cp) -> Result<Item, String> {
    let mut n = Len::new();
    let p = f(n.ptr());
    let n = n.get(what)?;
    Item::new(what, kind, p, n)
}

fn edge_list(g: P) -> Result<Item, String> {
    list("edge list", Kind::Edges, |n| c!(sx_edge_list(g, n)))
}

/// A pooled matrix: edge counts by block.
#[derive(Clone, Debug)]
struct MModel {
    b: u64,
    dim: u64,
    counts: BTreeMap<(u64, u64), u64>,
}

impl MModel {
    fn of(m: &Model, b: u64) -> Self {
        if m.n == 0 {
            return MModel { b: 1, dim: 0, counts: BTreeMap::new() };
        }
        let b = b.clamp(1, m.n);
        MModel { b, dim: m.n / b + u64::from(m.n % b != 0), counts: m.block_counts(b) }
    }
}

#[derive(Clone)]
enum Obj {
    G(P, Model),
    C(P, CModel),
    M(P, MModel),
}

/// What the object reads as, without reference to the model.
#[derive(PartialEq, Debug, Clone)]
struct Digest(Vec<u64>, BTreeSet<(u64, u64)>, Vec<Vec<u8>>);

impl Obj {
    fn ptr(&self) -> P {
        match self {
            Obj::G(p, _) | Obj::C(p, _) | Obj::M(p, _) => *p,
        }
    }
    fn release(&self) {
        match self {
            Obj::G(p, _) => c!(sx_free_graph(*p)),
            Obj::C(p, _) => c!(sx_free_compressed(*p)),
            Obj::M(p, _) => c!(sx_free_matrix(*p)),
        }
    }
    fn digest(&self) -> Result<Digest, String> {
        Ok(match *self {
            Obj::G(p, _) => {
                let l = edge_list(p)?;
                let set = l.as_edges().into_iter().collect();
                l.release();
                Digest(vec![c!(sx_vertex_count(p)), c!(sx_edge_count(p)), c!(sx_is_undirected(p)) as u64], set, vec![])
            }
            Obj::C(p, _) => {
                let b = list("compressed bytes", Kind::Bytes, |n| c!(sx_c_to_bytes(p, n)))?;
                let s = records(&b.copy, 42, 24);
                b.release();
                Digest(
                    vec![
                        c!(sx_c_vertex_count(p)),
                        c!(sx_c_edge_count(p)),
                        c!(sx_c_is_undirected(p)) as u64,
                        c!(sx_c_level(p)),
                    ],
                    BTreeSet::new(),
                    s,
                )
            }
            Obj::M(p, _) => {
                let l = list("entry list", Kind::Entries, |n| c!(sx_m_entries(p, n)))?;
                let s = records(&l.copy, 0, Item::size(Kind::Entries));
                l.release();
                Digest(vec![c!(sx_m_dimension(p)), c!(sx_m_entry_count(p))], BTreeSet::new(), s)
            }
        })
    }
}

/// A header and its records in any order, as comparable parts.
fn records(b: &[u8], head: usize, size: usize) -> Vec<Vec<u8>> {
    let head = head.min(b.len());
    let mut v: Vec<Vec<u8>> = b[head..].chunks(size.max(1)).map(<[u8]>::to_vec).collect();
    v.sort();
    v.push(b[..head].to_vec());
    v
}

fn flag(what: &str, got: i64, want: bool) -> Res {
    eq(what, got, i64::from(want))
}

fn vertex_query(m: &Model, g: P, v: u64) -> Res {
    let (out, ins) = (m.out(v), m.ins(v));
    eq(&format!("C out_degree({v})"), c!(sx_out_degree(g, v)), out.len() as u64)?;
    eq(&format!("C in_degree({v})"), c!(sx_in_degree(g, v)), ins.len() as u64)?;
    for (what, want, l) in [
        ("C out list", out, list("out list", Kind::Vertices, |n| c!(sx_out_list(g, v, n)))?),
        ("C in list", ins, list("in list", Kind::Vertices, |n| c!(sx_in_list(g, v, n)))?),
    ] {
        let mut got = l.as_vertices();
        got.sort_unstable();
        l.release();
        eq(&format!("{what}({v})"), got, want)?;
    }
    Ok(())
}

fn graph_counts(m: &Model, g: P) -> Res {
    flag("C is_undirected", c!(sx_is_undirected(g)), m.und)?;
    eq("C vertex_count", c!(sx_vertex_count(g)), m.n)?;
    eq("C edge_count", c!(sx_edge_count(g)), m.ec())
}

fn edge_set(what: &str, l: &Item) -> Result<BTreeSet<(u64, u64)>, String> {
    let v = l.as_edges();
    let s: BTreeSet<_> = v.iter().copied().collect();
    ck!(s.len() == v.len(), "{what} lists an edge twice");
    Ok(s)
}

fn graph_views(m: &Model, g: P, ids: &[u64]) -> Res {
    graph_counts(m, g)?;
    let l = edge_list(g)?;
    let set = edge_set("C edge list", &l)?;
    l.release();
    eq("C edge list", &set, &m.e)?;
    let uni = views::universe(m, ids, 10);
    let step = (uni.len() / 12).max(1);
    for &v in uni.iter().step_by(step) {
        vertex_query(m, g, v)?;
        for &w in uni.iter().rev().step_by(step) {
            flag(&format!("C does_edge_exist({v}, {w})"), c!(sx_does_edge_exist(g, v, w)), m.e.contains(&(v, w)))?;
        }
    }
    for &(a, b) in m.e.iter().step_by((m.e.len() / 30).max(1)) {
        flag(&format!("C does_edge_exist({a}, {b})"), c!(sx_does_edge_exist(g, a, b)), true)?;
        flag(&format!("C does_edge_exist({b}, {a})"), c!(sx_does_edge_exist(g, b, a)), m.e.contains(&(b, a)))?;
    }
    let b = list("bytes", Kind::Bytes, |n| c!(sx_to_bytes(g, n)))?;
    views::graph_bytes(m, &b.copy).map_err(|e| format!("C {e}"))?;
    b.release();
    graph_text(m, g, false).map(|_| ())
}

/// The text of a graph that is small enough to draw or far too large to.
fn graph_text(m: &Model, g: P, keep: bool) -> Result<Option<Item>, String> {
    if m.n > 150 && m.n <= 1 << 20 {
        return Ok(None);
    }
    let p = c!(sx_matrix_string(g));
    if m.n > 1 << 20 {
        ck!(p.is_null(), "C matrix_string of {} vertices", m.n);
        return Ok(None);
    }
    let t = Item::text("C matrix_string", p)?;
    eq("C matrix_string", t.as_text(), m.matrix_string())?;
    if keep {
        return Ok(Some(t));
    }
    t.release();
    Ok(None)
}

fn compressed_text(m: &CModel, g: P, keep: bool) -> Result<Option<Item>, String> {
    let dim = m.dim();
    if dim > 60 && dim <= 1 << 20 {
        return Ok(None);
    }
    let p = c!(sx_c_matrix_string(g));
    if dim > 1 << 20 {
        ck!(p.is_null(), "C compressed matrix_string of dimension {dim}");
        return Ok(None);
    }
    let t = Item::text("C compressed matrix_string", p)?;
    eq("C compressed matrix_string", t.as_text(), m.matrix_string())?;
    if keep {
        return Ok(Some(t));
    }
    t.release();
    Ok(None)
}

fn compressed_views(m: &CModel, g: P, ids: &[u64]) -> Res {
    flag("C compressed is_undirected", c!(sx_c_is_undirected(g)), m.und)?;
    eq("C compressed vertex_count", c!(sx_c_vertex_count(g)), m.n)?;
    eq("C compressed edge_count", c!(sx_c_edge_count(g)), m.ec())?;
    eq("C compression_level", c!(sx_c_level(g)), u64::from(m.level))?;
    for (&(x, y), &v) in m.bits.iter().take(30) {
        for (a, b) in [(x, y), (y, x), (x.wrapping_add(1), y), (x, y.wrapping_sub(1))] {
            let want = m.bits.get(&(a, b)).copied().unwrap_or(0);
            eq(&format!("C compressed entry ({a}, {b})"), c!(sx_c_entry(g, a, b)), want)?;
        }
        for i in (0..64u64).filter(|i| i % 9 == v % 9 || i % 13 == 0) {
            let (a, b) = (x * 8 + i % 8, y * 8 + i / 8);
            for (a, b) in [(a, b), (b, a)] {
                flag(
                    &format!("C compressed does_edge_exist({a}, {b})"),
                    c!(sx_c_does_edge_exist(g, a, b)),
                    m.has(a, b),
                )?;
            }
        }
    }
    for &a in ids.iter().take(5) {
        for &b in ids.iter().take(5) {
            flag(
                &format!("C compressed does_edge_exist({a}, {b})"),
                c!(sx_c_does_edge_exist(g, a, b)),
                m.has(a, b),
            )?;
        }
    }
    let b = list("compressed bytes", Kind::Bytes, |n| c!(sx_c_to_bytes(g, n)))?;
    views::compressed_bytes(m, &b.copy).map_err(|e| format!("C {e}"))?;
    b.release();
    compressed_text(m, g, false).map(|_| ())
}

fn matrix_text(m: &MModel, p: P, digits: Option<usize>, keep: bool) -> Result<Option<Item>, String> {
    let d = digits.unwrap_or(2);
    if m.dim > 60 && m.dim <= 1 << 20 {
        return Ok(None);
    }
    if d > 400 && m.dim > 3 && m.dim <= 1 << 20 {
        return Ok(None);
    }
    let s = match digits {
        Some(d) => c!(sx_m_string_with(p, d)),
        None => c!(sx_m_string(p)),
    };
    if m.dim > 1 << 20 {
        ck!(s.is_null(), "C matrix text of dimension {}", m.dim);
        return Ok(None);
    }
    if d > usize::from(u16::MAX) && s.is_null() {
        return Ok(None);
    }
    let t = Item::text("C matrix text", s)?;
    let want = render(m.dim, |x, y| {
        let e = d.min(2000);
        format!("{:.e$}{}", c!(sx_m_get(p, x, y)), "0".repeat(d - e))
    });
    eq("C matrix text", t.as_text(), want)?;
    if keep {
        return Ok(Some(t));
    }
    t.release();
    Ok(None)
}

fn matrix_values(m: &MModel, l: &Item) -> Res {
    let mut seen = BTreeSet::new();
    for (v, x, y) in l.as_entries() {
        ck!(seen.insert((x, y)), "C matrix entry list has ({x}, {y}) twice");
        let Some(&k) = m.counts.get(&(x, y)) else {
            return Err(format!("C matrix entry list has {v} at the empty block ({x}, {y})"));
        };
        views::pool_value(k, m.b, v).map_err(|e| format!("C matrix entry ({x}, {y}): {e}"))?;
    }
    eq("C matrix entry list length", seen.len(), m.counts.len())
}

fn matrix_views(m: &MModel, p: P) -> Res {
    eq("C matrix dimension", c!(sx_m_dimension(p)), m.dim)?;
    eq("C matrix entry_count", c!(sx_m_entry_count(p)), m.counts.len() as u64)?;
    let l = list("entry list", Kind::Entries, |n| c!(sx_m_entries(p, n)))?;
    matrix_values(m, &l)?;
    for (v, x, y) in l.as_entries().into_iter().take(60) {
        for (a, b) in [(x, y), (y, x), (x.wrapping_add(1), y)] {
            let got = c!(sx_m_get(p, a, b));
            match m.counts.get(&(a, b)) {
                Some(&k) => views::pool_value(k, m.b, got).map_err(|e| format!("C get_entry({a}, {b}): {e}"))?,
                None => ck!(got == 0.0, "C get_entry({a}, {b}) = {got} for an empty block"),
            }
        }
        ck!(c!(sx_m_get(p, x, y)) == v, "C get_entry({x}, {y}) differs from the entry list");
    }
    l.release();
    matrix_text(m, p, None, false).map(|_| ())
}

// ---------------------------------------------------------------- histories

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    New(bool),
    Load(RawBytes),
    LoadC(RawBytes),
    /// Serialise object i and load the bytes.
    Reload(u8),
    Dup(u8),
    Edge(u8, u8, u8),
    Del(u8, u8, u8),
    Vertex(u8, u8, Vec<u8>),
    Block(u8, u64, u64, u64),
    /// k consecutive neighbours of a hub: out-edges by one add_vertex call, in-edges one by one.
    Fan(u8, u8, u64, u64, bool),
    Compress(u8, LSel),
    Decompress(u8),
    Pool(u8, BSel),
    Approx(u8, BSel, TSel),
    /// Release object i.
    Free(u8),
    /// Fetch a list or buffer of object i and hold on to it.
    Hold(u8, u8, u8, u32),
    /// Release held item i.
    Drop(u8),
    /// Compare object i through every view.
    Look(u8),
    /// Ask object i about two IDs.
    Ask(u8, u8, u8),
    /// The same question about graph i before and after edits, and about its duplicate.
    Around(u8, u8, u8, u8, Vec<(u8, u8, u8)>),
    /// Hundreds of copies of object i, or of what it returns, alive at once.
    Many(u8, u8, u8, u64),
    /// Call function f with null in place of a pointer; i picks live objects.
    Null(u8, u8, u8, u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct History {
    ids: Vec<u64>,
    ops: Vec<Op>,
    order: u64,
}

fn op(nulls: u32) -> BoxedStrategy<Op> {
    let i = any::<u8>;
    let digits = prop_oneof![12 => 0u32..20, 1 => Just(65535u32), 1 => Just(65536u32), 1 => Just(u32::MAX)];
    let some = prop_oneof![
        3 => any::<bool>().prop_map(Op::New),
        1 => graph_like_bytes().prop_map(Op::Load),
        1 => compressed_like_bytes().prop_map(Op::LoadC),
        2 => i().prop_map(Op::Reload),
        3 => i().prop_map(Op::Dup),
        14 => (i(), i(), i()).prop_map(|(a, b, c)| Op::Edge(a, b, c)),
        5 => (i(), i(), i()).prop_map(|(a, b, c)| Op::Del(a, b, c)),
        3 => (i(), i(), vec(i(), 0..5)).prop_map(|(a, b, c)| Op::Vertex(a, b, c)),
        3 => (i(), 0u64..4, 0u64..4, block_bits()).prop_map(|(a, b, c, d)| Op::Block(a, b, c, d)),
        4 => (i(), lsel()).prop_map(|(a, b)| Op::Compress(a, b)),
        3 => i().prop_map(Op::Decompress),
        4 => (i(), bsel()).prop_map(|(a, b)| Op::Pool(a, b)),
        3 => (i(), bsel(), tsel()).prop_map(|(a, b, t)| Op::Approx(a, b, t)),
        4 => i().prop_map(Op::Free),
        9 => (i(), i(), i(), digits).prop_map(|(a, b, c, d)| Op::Hold(a, b, c, d)),
        4 => i().prop_map(Op::Drop),
        3 => i().prop_map(Op::Look),
        4 => (i(), i(), i()).prop_map(|(a, b, c)| Op::Ask(a, b, c)),
        2 => (i(), i(), i(), i(), vec((i(), i(), i()), 1..4)).prop_map(|(a, k, b, c, e)| Op::Around(a, k, b, c, e)),
    ];
    let base = prop_oneof![
        2000 => some,
        1 => (i(), i(), i(), any::<u64>()).prop_map(|(a, b, c, d)| Op::Many(a, b, c, d)),
    ];
    if nulls == 0 {
        return base.boxed();
    }
    prop_oneof![
        70 => base,
        nulls => (i(), i(), i(), i()).prop_map(|(a, b, c, d)| Op::Null(a, b, c, d)),
    ]
    .boxed()
}

fn history(len: std::ops::Range<usize>, nulls: u32) -> BoxedStrategy<History> {
    let ids = prop_oneof![3 => palette(), 3 => vec(0u64..20, 2..12), 2 => vec(0u64..40, 2..12)];
    // Histories start from a few objects, so that later calls have something to act on.
    let i = any::<u8>;
    let start = (
        vec(any::<bool>(), 1..4),
        vec((i(), 0u64..3, 0u64..3, block_bits()).prop_map(|(a, b, c, d)| Op::Block(a, b, c, d)), 0..3),
        vec((i(), i(), i()).prop_map(|(a, b, c)| Op::Edge(a, b, c)), 0..8),
        vec(
            prop_oneof![
                2 => (i(), lsel()).prop_map(|(a, b)| Op::Compress(a, b)),
                2 => (i(), bsel()).prop_map(|(a, b)| Op::Pool(a, b)),
                1 => i().prop_map(Op::Dup),
            ],
            0..3,
        ),
    )
        .prop_map(|(new, blocks, edges, derived)| {
            let mut v: Vec<Op> = new.into_iter().map(Op::New).collect();
            v.extend(blocks);
            v.extend(edges);
            v.extend(derived);
            v
        });
    let neighbours = prop_oneof![
        2000 => Just(0u64),
        20 => 2u64..60,
        30 => 250u64..262,
        10 => 60u64..1100,
        1 => 65_530u64..65_560,
    ];
    let fan = (neighbours, i(), i(), 0u64..50, any::<bool>());
    (ids, start, vec(op(nulls), len), any::<u64>(), fan)
        .prop_map(|(ids, mut ops, more, order, (k, a, hub, base, out))| {
            if k > 0 {
                ops.push(Op::Fan(a, hub, base, k, out));
            }
            ops.extend(more);
            History { ids, ops, order }
        })
        .boxed()
}

/// A few calls on an object of thousands of edges or blocks.
fn large_history(nulls: u32) -> BoxedStrategy<History> {
    let ids = prop_oneof![vec(0u64..20, 2..12), palette()];
    let i = any::<u8>;
    let start = prop_oneof![
        2 => (any::<bool>(), i(), 0u64..1000, about(9, 17), any::<bool>())
            .prop_map(|(und, hub, base, k, out)| vec![Op::New(und), Op::Fan(0, hub, base, k, out)]),
        2 => large_graph_bytes().prop_map(|b| vec![Op::Load(b)]),
        1 => large_compressed_bytes().prop_map(|b| vec![Op::LoadC(b)]),
    ];
    (ids, start, vec(op(nulls), 4..12), any::<u64>())
        .prop_map(|(ids, mut ops, more, order)| {
            ops.extend(more);
            History { ids, ops, order }
        })
        .boxed()
}

/// What a run over a history judges.
#[derive(Clone, Copy, PartialEq)]
enum Judge {
    Values,
    Memory,
    Nulls,
}

#[derive(Default)]
struct Run {
    objs: Vec<Obj>,
    /// Memory only: what each object read as after the last call through its own handle.
    digests: Vec<Option<Digest>>,
    held: Vec<Item>,
    caller: Vec<Guarded>,
    max_live: usize,
    derived: u64,
    freed_source: u64,
    nulls: u64,
    held_any: bool,
}

const CAP: usize = 12;

impl Run {
    fn pick(&self, i: u8, f: impl Fn(&Obj) -> bool) -> Option<usize> {
        let v: Vec<usize> = (0..self.objs.len()).filter(|&k| f(&self.objs[k])).collect();
        (!v.is_empty()).then(|| v[i as usize % v.len()])
    }
    fn graph(&self, i: u8) -> Option<usize> {
        self.pick(i, |o| matches!(o, Obj::G(..)))
    }
    fn caller(&mut self, bytes: &[u8], at_start: bool) -> *mut u8 {
        let g = Guarded::new(bytes, at_start);
        let p = g.data;
        self.caller.push(g);
        p
    }
    fn close_caller(&self) {
        if let Some(g) = self.caller.last() {
            g.close();
        }
    }
    /// Releases the least recently made objects beyond the cap.
    fn add(&mut self, j: Judge, what: &str, p: P, f: impl FnOnce(P) -> Obj) -> Res {
        if p.is_null() {
            // Only the values check says which calls must succeed.
            ck!(j != Judge::Values, "{what}: null handle");
            return Ok(());
        }
        self.objs.push(f(p));
        self.digests.push(None);
        self.touch(j, self.objs.len() - 1)?;
        self.max_live = self.max_live.max(self.objs.len());
        if self.objs.len() > CAP {
            self.free(j, 0)?;
        }
        Ok(())
    }
    fn touch(&mut self, j: Judge, k: usize) -> Res {
        if j == Judge::Memory {
            self.digests[k] = Some(self.objs[k].digest()?);
        }
        Ok(())
    }
    fn intact(&self, j: Judge, k: usize, ids: &[u64]) -> Res {
        match j {
            Judge::Memory => {
                let now = self.objs[k].digest()?;
                let was = self.digests[k].as_ref().expect("digest");
                ck!(&now == was, "an object changed without a call on it: was {} now {}", views::brief(was), views::brief(&now));
                Ok(())
            }
            Judge::Values => match &self.objs[k] {
                Obj::G(p, m) => graph_views(m, *p, ids),
                Obj::C(p, m) => compressed_views(m, *p, ids),
                Obj::M(p, m) => matrix_views(m, *p),
            },
            Judge::Nulls => Ok(()),
        }
    }
    fn free(&mut self, j: Judge, k: usize) -> Res {
        if j == Judge::Memory {
            self.intact(j, k, &[])?;
        }
        let o = self.objs.remove(k);
        self.digests.remove(k);
        o.release();
        Ok(())
    }
}

/// The model of a loaded graph, or None when the bytes must be refused.
fn loaded<T>(v: Verdict<T>, null: bool) -> Result<Option<T>, String> {
    match v {
        Verdict::Accept(m) => {
            ck!(!null, "valid bytes were refused");
            Ok(Some(m))
        }
        Verdict::Either(m) => Ok((!null).then_some(m)),
        Verdict::Reject(why) => {
            ck!(null, "bytes with bad {why} were accepted");
            Ok(None)
        }
    }
}

/// Reads a model off the live object (when values are not being judged).
fn read_graph(p: P) -> Result<Model, String> {
    let l = edge_list(p)?;
    let e = l.as_edges().into_iter().collect();
    l.release();
    Ok(Model { und: c!(sx_is_undirected(p)) != 0, n: c!(sx_vertex_count(p)), e })
}

fn read_compressed(p: P) -> Result<CModel, String> {
    let b = list("compressed bytes", Kind::Bytes, |n| c!(sx_c_to_bytes(p, n)))?;
    let v = model::decode_compressed(&b.copy);
    b.release();
    match v {
        Verdict::Accept(m) | Verdict::Either(m) => Ok(m),
        Verdict::Reject(_) => Ok(CModel { und: false, n: 0, level: 1, bits: BTreeMap::new() }),
    }
}

fn step(r: &mut Run, h: &History, op: &Op, j: Judge) -> Res {
    let at = |i: u8| h.ids[i as usize % h.ids.len()];
    let values = j == Judge::Values;
    match op {
        Op::New(und) => {
            let p = c!(sx_new(c_int::from(*und)));
            r.add(j, "new", p, |p| Obj::G(p, Model::new(*und)))?;
        }
        Op::Load(b) => {
            let d = r.caller(&b.bytes, h.order & 1 == 0);
            let mut e = 0xA5u8;
            let p = c!(sx_from_bytes(d, b.bytes.len(), &mut e));
            r.close_caller();
            let m = if values {
                loaded(model::decode_graph(&b.bytes), p.is_null())?
            } else if p.is_null() {
                None
            } else {
                Some(read_graph(p)?)
            };
            if let Some(m) = m {
                r.add(j, "from_bytes", p, |p| Obj::G(p, m))?;
            }
        }
        Op::LoadC(b) => {
            let d = r.caller(&b.bytes, h.order & 1 == 0);
            let mut e = 0xA5u8;
            let p = c!(sx_c_from_bytes(d, b.bytes.len(), &mut e));
            r.close_caller();
            let m = if values {
                loaded(model::decode_compressed(&b.bytes), p.is_null())?
            } else if p.is_null() {
                None
            } else {
                Some(read_compressed(p)?)
            };
            if let Some(m) = m {
                r.add(j, "compressed from_bytes", p, |p| Obj::C(p, m))?;
            }
        }
        Op::Reload(i) => {
            let Some(k) = r.pick(*i, |o| !matches!(o, Obj::M(..))) else { return Ok(()) };
            let o = r.objs[k].clone();
            let b = match &o {
                Obj::G(p, _) => list("bytes", Kind::Bytes, |n| c!(sx_to_bytes(*p, n)))?,
                _ => list("compressed bytes", Kind::Bytes, |n| c!(sx_c_to_bytes(o.ptr(), n)))?,
            };
            let copy = b.copy.clone();
            b.release();
            let d = r.caller(&copy, h.order & 1 == 0);
            match o {
                Obj::G(_, m) => {
                    let p = c!(sx_from_bytes(d, copy.len(), std::ptr::null_mut()));
                    r.close_caller();
                    r.add(j, "from_bytes of own bytes", p, |p| Obj::G(p, m))?;
                }
                Obj::C(_, m) => {
                    let p = c!(sx_c_from_bytes(d, copy.len(), std::ptr::null_mut()));
                    r.close_caller();
                    r.add(j, "compressed from_bytes of own bytes", p, |p| Obj::C(p, m))?;
                }
                Obj::M(..) => {}
            }
            r.derived += 1;
        }
        Op::Dup(i) => {
            let Some(k) = r.pick(*i, |_| true) else { return Ok(()) };
            match r.objs[k].clone() {
                Obj::G(p, m) => r.add(j, "duplicate", c!(sx_duplicate(p)), |p| Obj::G(p, m))?,
                Obj::C(p, m) => r.add(j, "compressed duplicate", c!(sx_c_duplicate(p)), |p| Obj::C(p, m))?,
                Obj::M(p, m) => r.add(j, "matrix duplicate", c!(sx_m_duplicate(p)), |p| Obj::M(p, m))?,
            }
            r.derived += 1;
        }
        Op::Edge(i, a, b) | Op::Del(i, a, b) => {
            let Some(k) = r.graph(*i) else { return Ok(()) };
            let Obj::G(p, m) = &mut r.objs[k] else { unreachable!() };
            if matches!(op, Op::Edge(..)) {
                c!(sx_add_edge(*p, at(*a), at(*b)));
                m.add_edge(at(*a), at(*b));
            } else {
                c!(sx_delete_edge(*p, at(*a), at(*b)));
                m.delete_edge(at(*a), at(*b));
            }
            r.touch(j, k)?;
        }
        Op::Vertex(i, v, to) => {
            let Some(k) = r.graph(*i) else { return Ok(()) };
            let to: Vec<u64> = to.iter().map(|&t| at(t)).collect();
            let raw: Vec<u8> = to.iter().flat_map(|t| t.to_ne_bytes()).collect();
            let d = r.caller(&raw, false);
            let Obj::G(p, m) = &mut r.objs[k] else { unreachable!() };
            c!(sx_add_vertex(*p, at(*v), d as *const u64, to.len()));
            m.add_vertex(at(*v), Some(&to));
            r.close_caller();
            r.touch(j, k)?;
        }
        Op::Fan(i, hub, base, n, out) => {
            let Some(k) = r.graph(*i) else { return Ok(()) };
            let hub = at(*hub);
            let mut to: Vec<u64> = (0..*n).map(|d| base + d).collect();
            if *out && n % 3 == 0 {
                // A repeat, and IDs that differ from others only in some upper bits.
                to.extend((0..n / 3).take(12).map(|j| to[j as usize] ^ [0u64, 1 << 8, 1 << 16, 1 << 32][j as usize % 4]).collect::<Vec<_>>());
            }
            let raw: Vec<u8> = to.iter().flat_map(|t| t.to_ne_bytes()).collect();
            let d = if *out { r.caller(&raw, h.order & 1 == 0) } else { std::ptr::null_mut() };
            let Obj::G(p, m) = &mut r.objs[k] else { unreachable!() };
            if *out {
                c!(sx_add_vertex(*p, hub, d as *const u64, to.len()));
                m.add_vertex(hub, Some(&to));
                r.close_caller();
            } else {
                for &t in &to {
                    c!(sx_add_edge(*p, t, hub));
                    m.add_edge(t, hub);
                }
            }
            r.touch(j, k)?;
        }
        Op::Block(i, c, row, bits) => {
            let Some(k) = r.graph(*i) else { return Ok(()) };
            let Obj::G(p, m) = &mut r.objs[k] else { unreachable!() };
            for b in (0..64).filter(|b| bits >> b & 1 == 1) {
                c!(sx_add_edge(*p, c * 8 + b % 8, row * 8 + b / 8));
                m.add_edge(c * 8 + b % 8, row * 8 + b / 8);
            }
            r.touch(j, k)?;
        }
        Op::Compress(i, l) => {
            let Some(k) = r.graph(*i) else { return Ok(()) };
            let Obj::G(p, m) = r.objs[k].clone() else { unreachable!() };
            let l = l.get(&m);
            r.add(j, "compress", c!(sx_compress(p, l)), |p| Obj::C(p, m.compress(l)))?;
            r.derived += 1;
        }
        Op::Decompress(i) => {
            let Some(k) = r.pick(*i, |o| matches!(o, Obj::C(..))) else { return Ok(()) };
            let Obj::C(p, m) = r.objs[k].clone() else { unreachable!() };
            r.add(j, "decompress", c!(sx_decompress(p)), |p| Obj::G(p, m.decompress()))?;
            r.derived += 1;
        }
        Op::Pool(i, b) => {
            let Some(k) = r.graph(*i) else { return Ok(()) };
            let Obj::G(p, m) = r.objs[k].clone() else { unreachable!() };
            let b = b.get(m.n);
            r.add(j, "find_avg_pool_matrix", c!(sx_pool(p, b)), |p| Obj::M(p, MModel::of(&m, b)))?;
            r.derived += 1;
        }
        Op::Approx(i, b, t) => {
            let Some(k) = r.graph(*i) else { return Ok(()) };
            let Obj::G(p, m) = r.objs[k].clone() else { unreachable!() };
            let b = b.get(m.n);
            let t = t.get(&m, b);
            let q = c!(sx_approximate(p, b, t));
            if q.is_null() {
                return r.add(j, "approximate", q, |p| Obj::G(p, m));
            }
            let got = read_graph(q)?;
            if values {
                if b <= 1 || m.n <= 1 {
                    eq("C approximation", &got, &m)?;
                } else {
                    let b = b.min(m.n);
                    eq("C approximation direction", got.und, m.und)?;
                    eq("C approximation vertex_count", got.n, m.n / b + u64::from(m.n % b != 0))?;
                    let counts = m.block_counts(b);
                    for (&(x, y), &k) in &counts {
                        let has = got.e.contains(&(x, y));
                        if let Some(want) = views::reaches(k, b, t) {
                            ck!(has == want, "C approximation at {t:e}: block ({x}, {y}) with {k} of {b}x{b}: edge {has}");
                        }
                    }
                    for e in &got.e {
                        ck!(counts.contains_key(e), "C approximation has edge {e:?} for an empty block");
                    }
                }
            }
            r.add(j, "approximate", q, |p| Obj::G(p, got))?;
            r.derived += 1;
        }
        Op::Free(i) => {
            let Some(k) = r.pick(*i, |_| true) else { return Ok(()) };
            r.free(j, k)?;
            r.freed_source += u64::from(!r.objs.is_empty() || !r.held.is_empty());
        }
        Op::Hold(i, what, v, digits) => {
            let Some(k) = r.pick(*i, |_| true) else { return Ok(()) };
            let v = at(*v);
            let item = match &r.objs[k] {
                Obj::G(p, m) => match what % 5 {
                    0 => {
                        let l = edge_list(*p)?;
                        if values {
                            eq("C edge list", &edge_set("C edge list", &l)?, &m.e)?;
                        }
                        Some(l)
                    }
                    1 | 2 => {
                        let out = what % 5 == 1;
                        let l = if out {
                            list("out list", Kind::Vertices, |n| c!(sx_out_list(*p, v, n)))?
                        } else {
                            list("in list", Kind::Vertices, |n| c!(sx_in_list(*p, v, n)))?
                        };
                        if values {
                            let mut got = l.as_vertices();
                            got.sort_unstable();
                            eq(if out { "C out list" } else { "C in list" }, got, if out { m.out(v) } else { m.ins(v) })?;
                        }
                        Some(l)
                    }
                    3 => {
                        let b = list("bytes", Kind::Bytes, |n| c!(sx_to_bytes(*p, n)))?;
                        if values {
                            views::graph_bytes(m, &b.copy)?;
                        }
                        Some(b)
                    }
                    _ if values => graph_text(m, *p, true)?,
                    _ if m.n <= 150 => Item::some_text("C matrix_string", c!(sx_matrix_string(*p)))?,
                    _ => None,
                },
                Obj::C(p, m) => match what % 2 {
                    0 => {
                        let b = list("compressed bytes", Kind::Bytes, |n| c!(sx_c_to_bytes(*p, n)))?;
                        if values {
                            views::compressed_bytes(m, &b.copy)?;
                        }
                        Some(b)
                    }
                    _ if values => compressed_text(m, *p, true)?,
                    _ if m.dim() <= 60 => Item::some_text("C compressed matrix_string", c!(sx_c_matrix_string(*p)))?,
                    _ => None,
                },
                Obj::M(p, m) => match what % 3 {
                    0 => {
                        let l = list("entry list", Kind::Entries, |n| c!(sx_m_entries(*p, n)))?;
                        if values {
                            matrix_values(m, &l)?;
                        }
                        Some(l)
                    }
                    k => {
                        let d = if *digits == u32::MAX { usize::MAX } else { *digits as usize };
                        if values {
                            matrix_text(m, *p, (k == 1).then_some(d), true)?
                        } else if m.dim <= 60 && (d <= 400 || m.dim <= 3) {
                            let s = if k == 1 { c!(sx_m_string_with(*p, d)) } else { c!(sx_m_string(*p)) };
                            Item::some_text("C matrix text", s)?
                        } else {
                            None
                        }
                    }
                },
            };
            r.held_any |= item.is_some();
            r.held.extend(item);
        }
        Op::Drop(i) => {
            if !r.held.is_empty() {
                let k = *i as usize % r.held.len();
                let it = r.held.remove(k);
                if j == Judge::Memory {
                    it.unchanged()?;
                }
                it.release();
            }
        }
        Op::Look(i) => {
            if let Some(k) = r.pick(*i, |_| true) {
                r.intact(j, k, &h.ids)?;
            }
        }
        Op::Ask(i, a, b) => {
            let Some(k) = r.pick(*i, |_| true) else { return Ok(()) };
            let (a, b) = (at(*a), at(*b));
            match &r.objs[k] {
                Obj::G(p, m) if values => {
                    vertex_query(m, *p, a)?;
                    flag(&format!("C does_edge_exist({a}, {b})"), c!(sx_does_edge_exist(*p, a, b)), m.e.contains(&(a, b)))?;
                    graph_counts(m, *p)?;
                }
                Obj::C(p, m) if values => {
                    eq("C compressed entry", c!(sx_c_entry(*p, a, b)), m.bits.get(&(a, b)).copied().unwrap_or(0))?;
                    flag(&format!("C compressed does_edge_exist({a}, {b})"), c!(sx_c_does_edge_exist(*p, a, b)), m.has(a, b))?;
                }
                Obj::M(p, m) if values => {
                    let got = c!(sx_m_get(*p, a, b));
                    ck!((got != 0.0) == m.counts.contains_key(&(a, b)), "C get_entry({a}, {b}) = {got}");
                }
                o => {
                    o.digest()?;
                }
            }
        }
        Op::Around(i, kind, a, b, edits) => {
            let (Some(k), true) = (r.graph(*i), values) else { return Ok(()) };
            let Obj::G(p, mut m) = r.objs[k].clone() else { unreachable!() };
            let (x, y) = (at(*a), at(*b));
            let ask = |m: &Model, p: P| ask_graph(m, p, *kind, x, y).map_err(|e| format!("asked around edits: {e}"));
            ask(&m, p)?;
            let (p2, m2) = (c!(sx_duplicate(p)), m.clone());
            for &(e, u, v) in edits {
                let near: Vec<(u64, u64)> = m.e.iter().filter(|t| t.0 == x || t.1 == x).take(40).copied().collect();
                if e % 5 < 2 && !near.is_empty() {
                    let (u, v) = near[u as usize % near.len()];
                    c!(sx_delete_edge(p, u, v));
                    m.delete_edge(u, v);
                } else {
                    let (u, v) = match e % 5 {
                        0 | 2 => (at(u), x),
                        1 | 3 => (x, at(v)),
                        _ => (at(u), at(v)),
                    };
                    c!(sx_add_edge(p, u, v));
                    m.add_edge(u, v);
                }
                if e >= 252 {
                    // Hundreds of edits between two questions.
                    let (u, v) = (at(u), at(v));
                    for n in 1..often(e ^ u as u8, 1) {
                        if n % 2 == 1 {
                            c!(sx_add_edge(p, u, v));
                            m.add_edge(u, v);
                        } else {
                            c!(sx_delete_edge(p, u, v));
                            m.delete_edge(u, v);
                        }
                    }
                }
                ask(&m, p)?;
                ask(&m2, p2)?;
            }
            ask(&m, p)?;
            c!(sx_free_graph(p2));
            r.objs[k] = Obj::G(p, m);
        }
        Op::Many(i, what, n, order) => {
            let Some(k) = r.pick(*i, |o| match o {
                Obj::G(_, m) => m.e.len() <= 60,
                Obj::C(_, m) => m.bits.len() <= 60,
                Obj::M(_, m) => m.counts.len() <= 60,
            }) else { return Ok(()) };
            let o = r.objs[k].clone();
            let n = often(*n, (*n >> 3) | 1) as usize;
            let turn = permutation(n, *order);
            if what % 3 == 0 {
                let was = o.digest()?;
                let mut copies = Vec::new();
                for _ in 0..n {
                    copies.push(match &o {
                        Obj::G(p, m) => Obj::G(c!(sx_duplicate(*p)), m.clone()),
                        Obj::C(p, m) => Obj::C(c!(sx_c_duplicate(*p)), m.clone()),
                        Obj::M(p, m) => Obj::M(c!(sx_m_duplicate(*p)), m.clone()),
                    });
                    ck!(!copies[copies.len() - 1].ptr().is_null(), "duplicate: null handle");
                }
                for (c, &t) in turn.iter().enumerate() {
                    if c < 4 || c + 4 > n {
                        let now = copies[t].digest()?;
                        ck!(now == was, "copy {t} of {n} reads as {} and not as {}", views::brief(&now), views::brief(&was));
                    }
                    copies[t].release();
                }
            } else {
                let v = at(*what);
                let mut items = Vec::new();
                for _ in 0..n {
                    items.push(match &o {
                        Obj::G(p, _) if what % 3 == 1 => list("bytes", Kind::Bytes, |n| c!(sx_to_bytes(*p, n)))?,
                        Obj::G(p, _) if what % 2 == 0 => list("out list", Kind::Vertices, |n| c!(sx_out_list(*p, v, n)))?,
                        Obj::G(p, _) => edge_list(*p)?,
                        Obj::C(p, _) => list("compressed bytes", Kind::Bytes, |n| c!(sx_c_to_bytes(*p, n)))?,
                        Obj::M(p, m) if what % 3 == 1 && m.dim <= 10 => match Item::some_text("C matrix text", c!(sx_m_string(*p)))? {
                            Some(t) => t,
                            None => break,
                        },
                        Obj::M(p, _) => list("entry list", Kind::Entries, |n| c!(sx_m_entries(*p, n)))?,
                    });
                }
                let mut items: Vec<Option<Item>> = items.into_iter().map(Some).collect();
                for &t in &turn {
                    if let Some(item) = items.get_mut(t).and_then(Option::take) {
                        item.unchanged()?;
                        item.release();
                    }
                }
            }
            r.intact(j, k, &h.ids)?;
        }
        Op::Null(f, i, x, y) => {
            if j == Judge::Nulls {
                let before = r.objs.iter().map(Obj::digest).collect::<Result<Vec<_>, _>>()?;
                null_call(r, *f, *i, at(*x), at(*y))?;
                for (k, was) in before.iter().enumerate() {
                    let now = r.objs[k].digest()?;
                    ck!(&now == was, "null call {f} changed a live object");
                }
                for it in &r.held {
                    it.unchanged()?;
                }
                r.nulls += 1;
            }
        }
    }
    Ok(())
}

/// A single question about a graph.
fn ask_graph(m: &Model, g: P, kind: u8, v: u64, w: u64) -> Res {
    let sorted = |l: Item| {
        let mut v = l.as_vertices();
        v.sort_unstable();
        l.release();
        v
    };
    match kind % 11 {
        0 => eq(&format!("C in_degree({v})"), c!(sx_in_degree(g, v)), m.ins(v).len() as u64),
        1 => eq(&format!("C out_degree({v})"), c!(sx_out_degree(g, v)), m.out(v).len() as u64),
        2 => eq(&format!("C in list({v})"), sorted(list("in list", Kind::Vertices, |n| c!(sx_in_list(g, v, n)))?), m.ins(v)),
        3 => eq(&format!("C out list({v})"), sorted(list("out list", Kind::Vertices, |n| c!(sx_out_list(g, v, n)))?), m.out(v)),
        4 => flag(&format!("C does_edge_exist({v}, {w})"), c!(sx_does_edge_exist(g, v, w)), m.e.contains(&(v, w))),
        5 => graph_counts(m, g),
        6 => {
            let l = edge_list(g)?;
            let s = edge_set("C edge list", &l)?;
            l.release();
            eq("C edge list", &s, &m.e)
        }
        7 => {
            let b = 1 + w % 9;
            let p = c!(sx_pool(g, b));
            ck!(!p.is_null(), "find_avg_pool_matrix: null handle");
            matrix_views(&MModel::of(m, b), p)?;
            c!(sx_free_matrix(p));
            Ok(())
        }
        8 => {
            let l = 1 + (w % 5) as u8;
            let p = c!(sx_compress(g, l));
            ck!(!p.is_null(), "compress: null handle");
            compressed_views(&m.compress(l), p, &[v, w])?;
            c!(sx_free_compressed(p));
            Ok(())
        }
        9 => {
            let b = list("bytes", Kind::Bytes, |n| c!(sx_to_bytes(g, n)))?;
            views::graph_bytes(m, &b.copy)?;
            b.release();
            Ok(())
        }
        _ => graph_text(m, g, false).map(|_| ()),
    }
}

fn zero(what: &str, v: u64) -> Res {
    ck!(v == 0, "{what} with a null handle gave {v}");
    Ok(())
}

fn null_list(what: &str, f: impl Fn(*mut usize) -> Cp) -> Res {
    let mut n = Len::new();
    ck!(f(n.ptr()).is_null(), "{what} with a null handle is not null");
    eq(&format!("{what} length with a null handle"), n.get(what)?, 0)?;
    ck!(f(std::ptr::null_mut()).is_null(), "{what} with a null handle is not null");
    Ok(())
}

/// The same list or buffer with and without its length out-parameter.
fn omitted(what: &str, kind: Kind, head: usize, size: usize, f: impl Fn(*mut usize) -> Cp) -> Res {
    let with = list(what, kind, &f)?;
    let p = f(std::ptr::null_mut());
    let without = Item::new(&format!("{what} without a length"), kind, p, with.len)?;
    ck!(with.len == 0 || !p.is_null(), "{what} without a length is null");
    ck!(records(&with.copy, head, size) == records(&without.copy, head, size), "{what} differs when its length is omitted");
    with.release();
    without.release();
    Ok(())
}

fn null_call(r: &mut Run, f: u8, i: u8, x: u64, y: u64) -> Res {
    let null: P = std::ptr::null_mut();
    let g = r.graph(i).map(|k| r.objs[k].ptr());
    let cg = r.pick(i, |o| matches!(o, Obj::C(..))).map(|k| r.objs[k].ptr());
    let mx = r.pick(i, |o| matches!(o, Obj::M(..))).map(|k| r.objs[k].ptr());
    match f % 53 {
        0 => c!(sx_free_string(null)),
        1 => c!(sx_free_bytes(null, x as usize)),
        2 => c!(sx_free_graph(null)),
        3 => c!(sx_free_edges(null, x as usize)),
        4 => c!(sx_free_vertices(null, x as usize)),
        5 => c!(sx_free_compressed(null)),
        6 => c!(sx_free_matrix(null)),
        7 => c!(sx_free_entries(null, x as usize)),
        8 => ck!(c!(sx_duplicate(null)).is_null(), "duplicate of null"),
        9 => ck!(c!(sx_matrix_string(null)).is_null(), "matrix_string of null"),
        10 => null_list("to_bytes", |n| c!(sx_to_bytes(null, n)))?,
        11 => zero("is_undirected", c!(sx_is_undirected(null)) as u64)?,
        12 => zero("vertex_count", c!(sx_vertex_count(null)))?,
        13 => zero("edge_count", c!(sx_edge_count(null)))?,
        14 => zero("does_edge_exist", c!(sx_does_edge_exist(null, x, y)) as u64)?,
        15 => ck!(c!(sx_pool(null, x)).is_null(), "find_avg_pool_matrix of null"),
        16 => ck!(c!(sx_approximate(null, x, 0.5)).is_null(), "approximate of null"),
        17 => ck!(c!(sx_compress(null, x as u8)).is_null(), "compress of null"),
        18 => null_list("edge list", |n| c!(sx_edge_list(null, n)))?,
        19 => {
            let to = [x, y];
            c!(sx_add_vertex(null, x, to.as_ptr(), 2));
            c!(sx_add_vertex(null, x, std::ptr::null(), y as usize));
        }
        20 => c!(sx_add_edge(null, x, y)),
        21 => c!(sx_delete_edge(null, x, y)),
        22 => null_list("in list", |n| c!(sx_in_list(null, x, n)))?,
        23 => null_list("out list", |n| c!(sx_out_list(null, x, n)))?,
        24 => zero("in_degree", c!(sx_in_degree(null, x)))?,
        25 => zero("out_degree", c!(sx_out_degree(null, x)))?,
        26 => ck!(c!(sx_c_duplicate(null)).is_null(), "compressed duplicate of null"),
        27 => zero("compression_level", c!(sx_c_level(null)))?,
        28 => zero("compressed is_undirected", c!(sx_c_is_undirected(null)) as u64)?,
        29 => zero("compressed vertex_count", c!(sx_c_vertex_count(null)))?,
        30 => zero("compressed edge_count", c!(sx_c_edge_count(null)))?,
        31 => zero("compressed does_edge_exist", c!(sx_c_does_edge_exist(null, x, y)) as u64)?,
        32 => zero("compressed entry", c!(sx_c_entry(null, x, y)))?,
        33 => ck!(c!(sx_c_matrix_string(null)).is_null(), "compressed matrix_string of null"),
        34 => null_list("compressed to_bytes", |n| c!(sx_c_to_bytes(null, n)))?,
        35 => ck!(c!(sx_decompress(null)).is_null(), "decompress of null"),
        36 => ck!(c!(sx_m_duplicate(null)).is_null(), "matrix duplicate of null"),
        37 => zero("matrix dimension", c!(sx_m_dimension(null)))?,
        38 => zero("matrix entry_count", c!(sx_m_entry_count(null)))?,
        39 => ck!(c!(sx_m_get(null, x, y)) == 0.0, "get_entry of null"),
        40 => {
            ck!(c!(sx_m_string(null)).is_null(), "matrix to_string of null");
            ck!(c!(sx_m_string_with(null, x as usize)).is_null(), "matrix to_string of null");
        }
        41 => null_list("entry list", |n| c!(sx_m_entries(null, n)))?,
        // Null input buffers.
        42 | 43 => {
            for n in [0usize, 1, 26, 42, x as usize | 1] {
                let mut e = [0xA5u8; 3];
                let p = if f % 53 == 42 {
                    c!(sx_from_bytes(std::ptr::null(), n, &mut e[1]))
                } else {
                    c!(sx_c_from_bytes(std::ptr::null(), n, &mut e[1]))
                };
                ck!(p.is_null(), "a null buffer of length {n} was accepted");
                eq("error output for a null buffer", e, [0xA5, c!(sx_error_code()) as u8, 0xA5])?;
                let p = if f % 53 == 42 {
                    c!(sx_from_bytes(std::ptr::null(), n, std::ptr::null_mut()))
                } else {
                    c!(sx_c_from_bytes(std::ptr::null(), n, std::ptr::null_mut()))
                };
                ck!(p.is_null(), "a null buffer of length {n} was accepted");
            }
        }
        // Null array with a length: nothing changes (checked by the caller).
        44 | 45 => {
            if let Some(p) = g {
                c!(sx_add_vertex(p, x, std::ptr::null(), (y as usize).max(1)));
            }
        }
        46 => {
            if let Some(p) = g {
                omitted("edge list", Kind::Edges, 0, Item::size(Kind::Edges), |n| c!(sx_edge_list(p, n)))?;
            }
        }
        47 => {
            if let Some(p) = g {
                omitted("in list", Kind::Vertices, 0, Item::size(Kind::Vertices), |n| c!(sx_in_list(p, x, n)))?;
            }
        }
        48 => {
            if let Some(p) = g {
                omitted("out list", Kind::Vertices, 0, Item::size(Kind::Vertices), |n| c!(sx_out_list(p, x, n)))?;
            }
        }
        49 => {
            if let Some(p) = g {
                omitted("bytes", Kind::Bytes, 26, 16, |n| c!(sx_to_bytes(p, n)))?;
            }
        }
        50 => {
            if let Some(p) = cg {
                omitted("compressed bytes", Kind::Bytes, 42, 24, |n| c!(sx_c_to_bytes(p, n)))?;
            }
        }
        51 => {
            if let Some(p) = mx {
                omitted("entry list", Kind::Entries, 0, Item::size(Kind::Entries), |n| c!(sx_m_entries(p, n)))?;
            }
        }
        // An omitted error output: the object comes back, or not, just as with it.
        _ => {
            if let Some(p) = g {
                let b = list("bytes", Kind::Bytes, |n| c!(sx_to_bytes(p, n)))?;
                let mut raw = b.copy.clone();
                b.release();
                for bad in [false, true] {
                    if bad {
                        raw[(x % 8) as usize] ^= 1 << (y % 8);
                    }
                    let mut e = 0xA5u8;
                    let q = c!(sx_from_bytes(raw.as_ptr(), raw.len(), &mut e));
                    let s = c!(sx_from_bytes(raw.as_ptr(), raw.len(), std::ptr::null_mut()));
                    ck!(q.is_null() == s.is_null(), "from_bytes depends on the error output");
                    if !q.is_null() {
                        let m = read_graph(q)?;
                        eq("from_bytes without an error output", &read_graph(s)?, &m)?;
                        c!(sx_free_graph(q));
                        c!(sx_free_graph(s));
                    }
                }
            }
            if let Some(p) = cg {
                let b = list("compressed bytes", Kind::Bytes, |n| c!(sx_c_to_bytes(p, n)))?;
                let raw = b.copy.clone();
                b.release();
                let s = c!(sx_c_from_bytes(raw.as_ptr(), raw.len(), std::ptr::null_mut()));
                ck!(!s.is_null(), "compressed from_bytes without an error output");
                c!(sx_free_compressed(s));
            }
        }
    }
    Ok(())
}

/// Runs a history; returns what was still allocated at its end.
fn run_history(h: &History, j: Judge, r: &mut Run) -> Result<usize, String> {
    c!(gx_reset());
    for op in &h.ops {
        step(r, h, op, j)?;
        if j == Judge::Memory {
            memory_error()?;
        }
    }
    // Values are compared at the end too: an object must not depend on what happened to
    // others in the meantime.
    let mut order = permutation(r.objs.len() + r.held.len(), h.order);
    let nobj = r.objs.len();
    if j == Judge::Values {
        for k in 0..nobj {
            r.intact(j, k, &h.ids)?;
        }
    }
    let objs = std::mem::take(&mut r.objs);
    let digests = std::mem::take(&mut r.digests);
    let mut held: Vec<Option<Item>> = std::mem::take(&mut r.held).into_iter().map(Some).collect();
    for k in order.drain(..) {
        if k < nobj {
            if j == Judge::Memory {
                let now = objs[k].digest()?;
                ck!(Some(&now) == digests[k].as_ref(), "an object changed without a call on it");
            }
            objs[k].release();
        } else {
            let it = held[k - nobj].take().expect("each once");
            if j == Judge::Memory {
                it.unchanged()?;
            }
            it.release();
        }
    }
    c!(gx_check());
    if j == Judge::Memory {
        memory_error()?;
    }
    Ok(c!(gx_live_blocks()))
}

fn check_history(h: &History, j: Judge, ctx: &mut Ctx) -> Res {
    let mut r = Run::default();
    let left = run_history(h, j, &mut r)?;
    if j == Judge::Memory && left != 0 {
        // Something the library sets up once is not a leak: it does not happen again.
        let left = run_history(h, j, &mut Run::default())?;
        let bytes = c!(gx_live_bytes());
        ck!(left == 0, "{left} blocks ({bytes} bytes) are still allocated after everything was released");
    }
    ctx.nontrivial = match j {
        Judge::Values => r.derived > 0,
        Judge::Memory => r.held_any && r.max_live >= 2,
        Judge::Nulls => r.nulls > 0,
    };
    ctx.label_if(r.derived > 0, "derived objects");
    ctx.label_if(r.max_live >= 4, "four or more live objects");
    ctx.label_if(r.freed_source > 0, "released while others live");
    ctx.label_if(r.held_any, "held lists or buffers");
    ctx.label_if(r.nulls > 1, "several null calls");
    ctx.label_if(h.ids.iter().any(|&v| v > u64::from(u32::MAX)), "IDs above 2^32");
    Ok(())
}

pub struct P18;

impl Prop for P18 {
    type Case = History;
    const ID: &'static str = "P18";
    const RULE: &'static str = "A case is a history of up to 40 calls through the published C header, linked to the shared library: making, loading, editing, duplicating, compressing, decompressing, pooling, approximating, releasing and reading several live objects, with lists and buffers held across later calls. Every result is compared with a set-of-edges model, and all live objects once more at the end. Non-trivial: an object was derived from another.";
    const ASSUMPTIONS: &'static [&'static str] = &["pool and approximation values are compared as in P10 and P11", "list order is unspecified"];
    fn init() {
        api();
    }
    fn cases(t: Tier) -> u64 {
        if t == Tier::Quick { 120_000 } else { 1_800_000 }
    }
    fn strategy(t: Tier) -> BoxedStrategy<History> {
        boxed(history(1..if t == Tier::Quick { 40 } else { 90 }, 0))
    }
    fn large() -> Option<BoxedStrategy<History>> {
        Some(boxed(large_history(0)))
    }
    fn check(h: &History, ctx: &mut Ctx) -> Res {
        check_history(h, Judge::Values, ctx)
    }
}

pub struct P19;

impl Prop for P19 {
    type Case = History;
    const ID: &'static str = "P19";
    const RULE: &'static str = "A case is a history as in P18, run over an allocator that reuses nothing, guards both ends of every block and poisons released ones; caller buffers end at inaccessible pages, are read-only during the call and inaccessible after it. Every object, list and buffer must read the same until it is released, in any order, and after all releases no block may be live, none released twice, none damaged. Non-trivial: a list or buffer was held and two objects were live at once.";
    const ASSUMPTIONS: &'static [&'static str] = &["one-time set-up allocations of the library would not count as leaks (a leak must repeat)"];
    fn init() {
        api();
    }
    fn cases(t: Tier) -> u64 {
        if t == Tier::Quick { 120_000 } else { 1_800_000 }
    }
    fn strategy(t: Tier) -> BoxedStrategy<History> {
        boxed(history(1..if t == Tier::Quick { 40 } else { 90 }, 0))
    }
    fn large() -> Option<BoxedStrategy<History>> {
        Some(boxed(large_history(0)))
    }
    fn check(h: &History, ctx: &mut Ctx) -> Res {
        check_history(h, Judge::Memory, ctx)
    }
}

pub struct P20;

impl Prop for P20 {
    type Case = History;
    const ID: &'static str = "P20";
    const RULE: &'static str = "A case is a history as in P18 with calls in which a handle, release target, input array or buffer, or out-parameter is null (53 kinds, covering every function) mixed in. Each must return, give null, zero or false for a null handle, set its length to zero, and leave every live object and held result as it was; an omitted out-parameter must not change the result. Non-trivial: at least one such call.";
    fn init() {
        api();
    }
    fn cases(t: Tier) -> u64 {
        if t == Tier::Quick { 300_000 } else { 4_000_000 }
    }
    fn strategy(_: Tier) -> BoxedStrategy<History> {
        boxed(history(1..30, 70))
    }
    fn large() -> Option<BoxedStrategy<History>> {
        Some(boxed(large_history(70)))
    }
    fn check(h: &History, ctx: &mut Ctx) -> Res {
        check_history(h, Judge::Nulls, ctx)
    }
}

// ---------------------------------------------------------------- loading

pub struct P21;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C21 {
    compressed: bool,
    bytes: RawBytes,
    at_start: bool,
}

fn load21(c: &C21, ctx: &mut Ctx) -> Result<usize, String> {
    c!(gx_reset());
    let b = &c.bytes.bytes;
    let buf = Guarded::new(b, c.at_start);
    let load = |e: *mut u8| {
        if c.compressed {
            c!(sx_c_from_bytes(buf.data, b.len(), e))
        } else {
            c!(sx_from_bytes(buf.data, b.len(), e))
        }
    };
    let code = c!(sx_error_code()) as u8;
    for preset in [0xA5u8, 0, 1] {
        let mut e = [0x5Au8, preset, 0x5A];
        let p = load(&mut e[1]);
        let want = if p.is_null() { code } else { 0 };
        eq("error output", e, [0x5A, want, 0x5A])?;
        if preset != 0xA5 {
            if !p.is_null() {
                if c.compressed {
                    c!(sx_free_compressed(p));
                } else {
                    c!(sx_free_graph(p));
                }
            } else {
                ck!(c!(gx_live_blocks()) == 0, "leak");
            }
            continue;
        }
        if c.compressed {
            if let Some(m) = loaded(model::decode_compressed(b), p.is_null())? {
                ctx.label("compressed graph loaded");
                compressed_views(&m, p, &[])?;
                c!(sx_free_compressed(p));
            }
        } else if let Some(m) = loaded(model::decode_graph(b), p.is_null())? {
            ctx.label("graph loaded");
            graph_views(&m, p, &[])?;
            c!(sx_free_graph(p));
        }
    }
    // The object must live without the buffer.
    let p = load(std::ptr::null_mut());
    buf.close();
    if !p.is_null() {
        if c.compressed {
            let m = read_compressed(p)?;
            compressed_views(&m, p, &[])?;
            c!(sx_free_compressed(p));
        } else {
            let m = read_graph(p)?;
            graph_views(&m, p, &[])?;
            c!(sx_free_graph(p));
        }
    }
    c!(gx_check());
    memory_error()?;
    Ok(c!(gx_live_blocks()))
}

impl Prop for P21 {
    type Case = C21;
    const ID: &'static str = "P21";
    const RULE: &'static str = "A case is a byte string as in P05 or P07 at the start or end of a read-only page next to inaccessible ones, loaded through the C interface with the error output preset to junk, to success, to failure, and omitted. An independent decoder says accept (as which object) or reject; null must come with the invalid-format code and a handle with 0, the object must match through every view and still work once the buffer is gone, and no memory may remain. Non-trivial: the magic and version are right and the header is whole.";
    fn init() {
        api();
    }
    fn cases(t: Tier) -> u64 {
        if t == Tier::Quick { 480_000 } else { 7_000_000 }
    }
    fn strategy(_: Tier) -> BoxedStrategy<C21> {
        boxed(
            (
                prop_oneof![
                    graph_like_bytes().prop_map(|b| (false, b)),
                    compressed_like_bytes().prop_map(|b| (true, b)),
                ],
                any::<bool>(),
            )
                .prop_map(|((compressed, bytes), at_start)| C21 { compressed, bytes, at_start }),
        )
    }
    fn large() -> Option<BoxedStrategy<C21>> {
        Some(boxed(
            (
                prop_oneof![large_graph_bytes().prop_map(|b| (false, b)), large_compressed_bytes().prop_map(|b| (true, b))],
                any::<bool>(),
            )
                .prop_map(|((compressed, bytes), at_start)| C21 { compressed, bytes, at_start }),
        ))
    }
    fn check(c: &C21, ctx: &mut Ctx) -> Res {
        let b = &c.bytes.bytes;
        ctx.nontrivial = if c.compressed {
            b.len() >= 42 && b[..8] == [0x71, 0xff, 0x7a, 0xed, 0, 0, 0, 2]
        } else {
            b.len() >= 26 && b[..8] == [0x7a, 0xe7, 0x1f, 0xfd, 0, 0, 0, 1]
        };
        let first = load21(c, ctx);
        match first {
            Ok(0) => Ok(()),
            Err(e) if e != "leak" => Err(e),
            _ => match load21(c, ctx) {
                Ok(0) => Ok(()),
                Ok(n) => Err(format!("{n} blocks are still allocated after loading and releasing")),
                Err(e) if e == "leak" => Err("memory is still allocated after a failed load".into()),
                Err(e) => Err(e),
            },
        }
    }
}

// ---------------------------------------------------------------- threads

/// The C interface for the checks that use several threads.
pub struct CLib;

macro_rules! handle {
    ($($name:ident $free:ident;)*) => { $(
        pub struct $name(P);
        impl $name {
            fn new(what: &str, p: P) -> Result<Self, String> {
                ck!(!p.is_null(), "{what}: null handle");
                Ok($name(p))
            }
        }
        impl Drop for $name {
            fn drop(&mut self) {
                c!($free(self.0))
            }
        }
    )* };
}

handle! {
    CGraph sx_free_graph;
    CCompressed sx_free_compressed;
    CMatrix sx_free_matrix;
}

pub fn load() {
    api();
}

/// Reads a list or buffer and releases it.
fn take<R>(what: &str, kind: Kind, f: impl FnOnce(*mut usize) -> Cp, read: impl FnOnce(&Item) -> R) -> Result<R, String> {
    let l = list(what, kind, f)?;
    let r = read(&l);
    l.release();
    Ok(r)
}

fn take_text(what: &str, p: Cp) -> Result<Ans, String> {
    let t = Item::text(what, p)?;
    let r = threads::text(&t.copy);
    t.release();
    Ok(r)
}

fn ascending(mut v: Vec<u64>) -> Ans {
    v.sort_unstable();
    v
}

impl Lib for CLib {
    type G = CGraph;
    type C = CCompressed;
    type M = CMatrix;
    type A = ();
    fn fresh(und: bool) -> Result<CGraph, String> {
        CGraph::new("new", c!(sx_new(c_int::from(und))))
    }
    fn dup(g: &CGraph) -> Result<CGraph, String> {
        CGraph::new("duplicate", c!(sx_duplicate(g.0)))
    }
    fn edge(g: &mut CGraph, a: u64, b: u64) {
        c!(sx_add_edge(g.0, a, b))
    }
    fn del(g: &mut CGraph, a: u64, b: u64) {
        c!(sx_delete_edge(g.0, a, b))
    }
    fn vertex(g: &mut CGraph, v: u64, to: &[u64]) {
        c!(sx_add_vertex(g.0, v, to.as_ptr(), to.len()))
    }
    fn ask(g: &CGraph, kind: u8, a: u64, b: u64) -> Result<Ans, String> {
        let p = g.0;
        Ok(match kind {
            0 => vec![c!(sx_is_undirected(p)) as u64, c!(sx_vertex_count(p)), c!(sx_edge_count(p))],
            1 => vec![c!(sx_in_degree(p, a))],
            2 => vec![c!(sx_out_degree(p, a))],
            3 => ascending(take("in list", Kind::Vertices, |n| c!(sx_in_list(p, a, n)), Item::as_vertices)?),
            4 => ascending(take("out list", Kind::Vertices, |n| c!(sx_out_list(p, a, n)), Item::as_vertices)?),
            5 => vec![c!(sx_does_edge_exist(p, a, b)) as u64],
            6 => threads::pairs(take("edge list", Kind::Edges, |n| c!(sx_edge_list(p, n)), Item::as_edges)?),
            7 => threads::packed(&Self::bytes(g)?, 26, 16),
            _ if c!(sx_vertex_count(p)) <= threads::DRAWN => take_text("matrix_string", c!(sx_matrix_string(p)))?,
            _ => vec![],
        })
    }
    fn compress(g: &CGraph, level: u8) -> Result<CCompressed, String> {
        CCompressed::new("compress", c!(sx_compress(g.0, level)))
    }
    fn dup_c(c: &CCompressed) -> Result<CCompressed, String> {
        CCompressed::new("compressed duplicate", c!(sx_c_duplicate(c.0)))
    }
    fn decompress(c: &CCompressed) -> Result<CGraph, String> {
        CGraph::new("decompress", c!(sx_decompress(c.0)))
    }
    fn ask_c(c: &CCompressed, kind: u8, a: u64, b: u64) -> Result<Ans, String> {
        let p = c.0;
        Ok(match kind {
            0 => vec![c!(sx_c_is_undirected(p)) as u64, c!(sx_c_vertex_count(p)), c!(sx_c_edge_count(p)), c!(sx_c_level(p))],
            1 => vec![c!(sx_c_does_edge_exist(p, a, b)) as u64],
            2 => vec![c!(sx_c_entry(p, a / 8, b / 8))],
            3 => threads::packed(&Self::bytes_c(c)?, 42, 24),
            _ if c!(sx_c_vertex_count(p)) <= 8 * threads::DRAWN => take_text("compressed matrix_string", c!(sx_c_matrix_string(p)))?,
            _ => vec![],
        })
    }
    fn pool(g: &CGraph, b: u64) -> Result<CMatrix, String> {
        CMatrix::new("find_avg_pool_matrix", c!(sx_pool(g.0, b)))
    }
    fn dup_m(m: &CMatrix) -> Result<CMatrix, String> {
        CMatrix::new("matrix duplicate", c!(sx_m_duplicate(m.0)))
    }
    fn ask_m(m: &CMatrix, kind: u8, a: u64, b: u64) -> Result<Ans, String> {
        let p = m.0;
        let drawn = c!(sx_m_dimension(p)) <= threads::DRAWN;
        Ok(match kind {
            0 => vec![c!(sx_m_dimension(p)), c!(sx_m_entry_count(p))],
            1 => vec![c!(sx_m_get(p, a, b)).to_bits()],
            2 => {
                let v = take("entry list", Kind::Entries, |n| c!(sx_m_entries(p, n)), Item::as_entries)?;
                threads::triples(v.into_iter().map(|(v, x, y)| (x, y, v.to_bits())).collect())
            }
            3 if drawn => take_text("matrix text", c!(sx_m_string(p)))?,
            4 if drawn => take_text("matrix text", c!(sx_m_string_with(p, a as usize % 20)))?,
            _ => vec![],
        })
    }
    fn approximate(g: &CGraph, b: u64, t: f64) -> Result<CGraph, String> {
        CGraph::new("approximate", c!(sx_approximate(g.0, b, t)))
    }
    fn load(bytes: &[u8]) -> Result<Option<CGraph>, String> {
        let mut e = 0xA5u8;
        let p = c!(sx_from_bytes(bytes.as_ptr(), bytes.len(), &mut e));
        let g = (!p.is_null()).then_some(CGraph(p));
        eq("error output", e, if g.is_some() { 0 } else { c!(sx_error_code()) as u8 })?;
        Ok(g)
    }
    fn load_c(bytes: &[u8]) -> Result<Option<CCompressed>, String> {
        let mut e = 0xA5u8;
        let p = c!(sx_c_from_bytes(bytes.as_ptr(), bytes.len(), &mut e));
        let g = (!p.is_null()).then_some(CCompressed(p));
        eq("error output", e, if g.is_some() { 0 } else { c!(sx_error_code()) as u8 })?;
        Ok(g)
    }
    fn bytes(g: &CGraph) -> Result<Vec<u8>, String> {
        take("bytes", Kind::Bytes, |n| c!(sx_to_bytes(g.0, n)), |i| i.copy.clone())
    }
    fn bytes_c(c: &CCompressed) -> Result<Vec<u8>, String> {
        take("compressed bytes", Kind::Bytes, |n| c!(sx_c_to_bytes(c.0, n)), |i| i.copy.clone())
    }
    fn before() {
        c!(gx_reset())
    }
    fn after() -> Res {
        c!(gx_check());
        memory_error()
    }
}
