//! Runs a case against the real code and compares with the reference model.
use crate::case::Case;
use crate::gen::{apply, model};
use crate::model::*;
use graphrox::builder::CompressedGraphBuilder;
use graphrox::matrix::{CsrAdjacencyMatrix, CsrSquareMatrix, MatrixRepresentation};
use graphrox::{CompressedGraph, Graph, GraphRepresentation};
use std::collections::{BTreeMap, BTreeSet};

pub type R = Result<(), String>;
#[macro_export]
macro_rules! eq {
    ($a:expr, $b:expr, $($m:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b { return Err(format!("{}: got {:?}, expected {:?}", format!($($m)*), a, b)); }
    }};
}

/// vertices worth asking about
pub fn probes(g: &G) -> Vec<u64> {
    let mut s: BTreeSet<u64> = [0, 1, 2, 7, 8, u64::MAX, u64::MAX - 1].into();
    for (a, b) in g.e.iter().take(40) {
        for x in [*a, *b] {
            s.extend([x, x.wrapping_add(1), x.wrapping_sub(1)]);
        }
    }
    s.extend([g.dim, g.dim.wrapping_sub(1)]);
    let v: Vec<u64> = s.into_iter().collect();
    if v.len() > 24 {
        v.iter().step_by(v.len() / 24 + 1).copied().collect()
    } else {
        v
    }
}
pub fn real(c: &Case) -> Graph {
    let mut g = if c.und { Graph::new_undirected() } else { Graph::new_directed() };
    for (n, a) in &c.ops {
        real_op(&mut g, n, a);
    }
    g
}
fn real_op(g: &mut Graph, n: &str, a: &[u64]) {
    match n {
        "add" => g.add_edge(a[0], a[1]),
        "del" => g.delete_edge(a[0], a[1]),
        "vertn" => g.add_vertex(a[0], None),
        "vert" => g.add_vertex(a[0], Some(&a[1..])),
        _ => panic!("bad op"),
    }
}
pub fn edges(g: &Graph) -> Result<BTreeSet<(u64, u64)>, String> {
    let v: Vec<(u64, u64)> = g.into_iter().collect();
    let s: BTreeSet<_> = v.iter().copied().collect();
    if s.len() != v.len() {
        return Err(format!("iteration yields an edge twice: {v:?}"));
    }
    Ok(s)
}
fn same(g: &Graph, m: &G, full: bool) -> R {
    eq!(g.is_undirected(), m.und, "is_undirected");
    eq!(g.vertex_count(), m.dim, "vertex_count");
    eq!(g.edge_count(), m.e.len() as u64, "edge_count");
    for p in &m.e {
        eq!(g.does_edge_exist(p.0, p.1), true, "does_edge_exist{p:?}");
    }
    let ps = probes(m);
    for a in &ps {
        for b in &ps {
            eq!(g.does_edge_exist(*a, *b), m.e.contains(&(*a, *b)), "does_edge_exist({a},{b})");
        }
    }
    if full {
        eq!(edges(g)?, m.e, "edges");
    }
    Ok(())
}
/// reads a graph through its public queries
pub fn read(g: &Graph) -> Result<G, String> {
    let e = edges(g)?;
    eq!(g.edge_count(), e.len() as u64, "edge_count against iteration");
    Ok(G { und: g.is_undirected(), dim: g.vertex_count(), e })
}
fn symmetric(g: &Graph, what: &str) -> R {
    for (a, b) in g {
        if !g.does_edge_exist(b, a) {
            return Err(format!("{what}: undirected, has ({a},{b}) and not ({b},{a})"));
        }
    }
    Ok(())
}
/// of long histories, only some prefixes are checked
fn dense(i: usize, n: usize) -> bool {
    n > 60 && i + 1 < n && i % (n / 6) != 0
}
fn c01(c: &Case) -> R {
    let mut m = CsrAdjacencyMatrix::new();
    let mut s: BTreeSet<(u64, u64)> = BTreeSet::new();
    let mut dim = 0;
    for (i, (n, a)) in c.ops.iter().enumerate() {
        let l = a.len();
        let (x, y) = (a[l - 2], a[l - 1]);
        let zero = n == "zero" || a[0] == 0 && n == "set";
        if n == "zero" {
            m.zero_entry(x, y);
        } else {
            m.set_entry(a[0] as u8, x, y);
        }
        if x != u64::MAX && y != u64::MAX {
            if n == "set" {
                dim = dim.max(x + 1).max(y + 1);
            }
            if zero {
                s.remove(&(x, y));
            } else {
                s.insert((x, y));
            }
        }
        if dense(i, c.ops.len()) {
            continue;
        }
        eq!(m.dimension(), dim, "dimension after {n} {a:?}");
        eq!(m.entry_count(), s.len() as u64, "entry_count after {n} {a:?}");
        let ps = probes(&G { und: false, dim, e: s.clone() });
        for p in s.iter().copied().chain(ps.iter().flat_map(|p| ps.iter().map(move |q| (*p, *q)))).chain([(x, y), (y, x)]) {
            eq!(m.get_entry(p.0, p.1), s.contains(&p) as u8, "get_entry{p:?} after {n} {a:?}");
        }
    }
    let v: Vec<(u64, u64)> = m.into_iter().collect();
    eq!(v.len(), s.len(), "entries iterated");
    eq!(v.into_iter().collect::<BTreeSet<_>>(), s, "entries");
    Ok(())
}
/// the k-th value, or from `VALUE` on the value k - VALUE
macro_rules! numeric {
    ($t:ty, $vals:ident, $k:expr) => {
        if $k >= crate::gen::VALUE { ($k - crate::gen::VALUE) as $t } else { $vals[$k as usize % $vals.len()] }
    };
}
macro_rules! square {
    ($c:expr, $t:ty, $vals:expr, $max:expr) => {{
        let vals: Vec<$t> = $vals;
        let mut m: CsrSquareMatrix<$t> = CsrSquareMatrix::new();
        let mut s: BTreeMap<(u64, u64), $t> = BTreeMap::new();
        let mut dim = 0;
        let z = 0 as $t;
        for (i, (n, a)) in $c.ops.iter().enumerate() {
            let l = a.len();
            let p = (a[l - 2], a[l - 1]);
            let mut v = if n == "set" { numeric!($t, vals, a[0]) } else { z };
            if n == "inc" {
                let old = s.get(&p).copied().unwrap_or(z);
                if old == $max {
                    continue;
                }
                v = old + (1 as $t);
                m.increment_entry(p.0, p.1);
            } else if n == "set" {
                m.set_entry(v, p.0, p.1);
            } else {
                m.zero_entry(p.0, p.1);
            }
            if p.0 != u64::MAX && p.1 != u64::MAX {
                if n != "zero" {
                    dim = dim.max(p.0 + 1).max(p.1 + 1);
                }
                if v == z {
                    s.remove(&p);
                } else {
                    s.insert(p, v);
                }
            }
            if dense(i, $c.ops.len()) {
            continue;
        }
        eq!(m.dimension(), dim, "dimension after {n} {a:?}");
            eq!(m.entry_count(), s.len() as u64, "entry_count after {n} {a:?}");
            let ps = probes(&G { und: false, dim, e: s.keys().copied().collect() });
            for q in s.keys().copied().chain(ps.iter().flat_map(|p| ps.iter().map(move |q| (*p, *q)))).chain([p, (p.1, p.0)]) {
                eq!(m.get_entry(q.0, q.1), s.get(&q).copied().unwrap_or(z), "get_entry{q:?} after {n} {a:?} ({})", stringify!($t));
            }
        }
        let v: Vec<($t, u64, u64)> = m.into_iter().collect();
        eq!(v.len(), s.len(), "entries iterated");
        eq!(v.into_iter().map(|(e, a, b)| ((a, b), e)).collect::<BTreeMap<_, _>>(), s, "entries");
        Ok(())
    }};
}
fn c02(c: &Case) -> R {
    macro_rules! ints { ($t:ty) => { square!(c, $t, vec![0, 1, 2, 3, <$t>::MAX, <$t>::MAX - 1, <$t>::MIN, <$t>::MIN + 1, (0 as $t).wrapping_sub(1), 7, 100, (0 as $t).wrapping_sub(2)], <$t>::MAX) } }
    match c.args[0] {
        0 => ints!(u8),
        1 => ints!(u16),
        2 => ints!(u32),
        3 => ints!(u64),
        4 => ints!(u128),
        5 => ints!(i8),
        6 => ints!(i16),
        7 => ints!(i32),
        8 => ints!(i64),
        9 => ints!(i128),
        10 => square!(c, f32, vec![0.0, 1.0, -1.0, 0.5, -0.5, f32::MIN_POSITIVE, 1e10, -3.25, -0.0, 2.0, 1e-40, -2.0, 16777216.0, 16777218.0, -16777215.0, f32::INFINITY, f32::NEG_INFINITY, f32::MAX, f32::MIN, 0.1, -0.9999999, 8388608.5, 65536.0, f32::EPSILON], f32::NAN),
        _ => square!(c, f64, vec![0.0, 1.0, -1.0, 0.5, -0.5, f64::MIN_POSITIVE, 1e10, -3.25, -0.0, 2.0, 1e-310, -2.0, 9007199254740992.0, 9007199254740994.0, -9007199254740991.0, f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN, 0.1, -0.99999999999, 4503599627370496.5, 4294967296.0, f64::EPSILON], f64::NAN),
    }
}
fn c03(c: &Case) -> R {
    let mut g = if c.und { Graph::new_undirected() } else { Graph::new_directed() };
    let mut m = G::new(c.und);
    same(&g, &m, true)?;
    let every = c.ops.len() < 8;
    for (i, (n, a)) in c.ops.iter().enumerate() {
        real_op(&mut g, n, a);
        apply(&mut m, n, a);
        if every || i % 7 == 0 {
            same(&g, &m, false).map_err(|e| format!("after op {i} {n} {a:?}: {e}"))?;
        }
    }
    same(&g, &m, true)?;
    same(&g.clone(), &m, true)
}
fn c04(c: &Case) -> R {
    let m = model(c.und, &c.ops);
    // a matrix accepted as undirected exactly when it is symmetric
    let mut a = CsrAdjacencyMatrix::new();
    if m.dim > 0 {
        a.set_entry(0, m.dim - 1, 0);
    }
    for p in &m.e {
        a.set_entry(1, p.0, p.1);
    }
    let d = Graph::directed_from(a.clone());
    same(&d, &G { und: false, ..m.clone() }, true)?;
    match Graph::undirected_from(a) {
        Ok(g) => {
            eq!(true, m.symmetric(), "undirected_from accepted {:?}", m.e);
            same(&g, &G { und: true, ..m.clone() }, true)?;
        }
        Err(_) => eq!(false, m.symmetric(), "undirected_from refused {:?}", m.e),
    }
    if m.symmetric() {
        let mut a = CsrAdjacencyMatrix::new();
        for p in &m.e {
            a.set_entry(1, p.0, p.1);
        }
        let g = unsafe { Graph::undirected_from_unchecked(a) };
        eq!(g.is_undirected(), true, "undirected_from_unchecked");
        eq!(edges(&g)?, m.e, "undirected_from_unchecked");
    }
    if c.und {
        let g = real(c);
        symmetric(&g, "history")?;
        let mut x = real(c);
        for (n, a) in &c.ops {
            if n == "add" && a[0] % 2 == 0 {
                x.delete_edge(a[1], a[0]);
                eq!(x.does_edge_exist(a[0], a[1]), false, "deleted from the other side");
            }
        }
        symmetric(&x, "deletions")?;
        for v in probes(&m) {
            let (mut i, mut o) = (g.get_vertex_in_edges(v), g.get_vertex_out_edges(v));
            i.sort();
            o.sort();
            eq!(i, o, "in and out edges of {v}");
            eq!(g.get_vertex_in_degree(v), g.get_vertex_out_degree(v), "degrees of {v}");
        }
        symmetric(&g.approximate(c.args[0], f64::from_bits(c.args[1])), "approximate")?;
        let z = g.compress(c.args[2] as u8);
        symmetric(&z.decompress(), "decompress")?;
        for (a, b) in &g {
            eq!(z.does_edge_exist(a, b), z.does_edge_exist(b, a), "compressed ({a},{b}) and its reverse");
        }
        if let Ok(b) = g.to_bytes() {
            if let Ok(h) = Graph::try_from(b.as_slice()) {
                symmetric(&h, "decoded")?;
            }
        }
    }
    Ok(())
}
fn c05(c: &Case) -> R {
    let (g, m) = (real(c), model(c.und, &c.ops));
    for v in probes(&m) {
        let (mut i, mut o) = (g.get_vertex_in_edges(v), g.get_vertex_out_edges(v));
        i.sort();
        o.sort();
        eq!(o, m.out(v), "out edges of {v}");
        eq!(i, m.inn(v), "in edges of {v}");
        eq!(g.get_vertex_out_degree(v), m.out(v).len() as u64, "out degree of {v}");
        eq!(g.get_vertex_in_degree(v), m.inn(v).len() as u64, "in degree of {v}");
    }
    let mut a = CsrAdjacencyMatrix::new();
    for p in &m.e {
        a.set_entry(1, p.0, p.1);
    }
    for p in m.e.iter().take(10) {
        a.zero_entry(p.0, p.1);
    }
    let rest: BTreeSet<_> = m.e.iter().skip(10).copied().collect();
    let h = G { und: false, dim: m.dim, e: rest };
    for v in probes(&m) {
        let (mut x, mut y) = (a.get_sparse_col_vector(v), a.get_sparse_row_vector(v));
        x.sort();
        y.sort();
        eq!(x, h.out(v), "column {v}");
        eq!(y, h.inn(v), "row {v}");
        eq!(a.col_nonzero_entry_count(v), h.out(v).len() as u64, "column count {v}");
        eq!(a.row_nonzero_entry_count(v), h.inn(v).len() as u64, "row count {v}");
    }
    Ok(())
}
fn c06(c: &Case) -> R {
    let (g, m) = (real(c), model(c.und, &c.ops));
    eq!(edges(&g)?, m.e, "edges");
    eq!(edges(&g)?, m.e, "edges, second time");
    let mut it = (&g).into_iter();
    let mut n = 0;
    while it.next().is_some() {
        n += 1;
    }
    eq!(n, m.e.len(), "edges yielded");
    for _ in 0..3 {
        eq!(it.next(), None, "after the end");
    }
    // matrices that had entries deleted
    let mut a = CsrAdjacencyMatrix::new();
    let mut s: CsrSquareMatrix<i64> = CsrSquareMatrix::new();
    let mut want = BTreeMap::new();
    for (i, p) in m.e.iter().enumerate() {
        a.set_entry(1, p.0, p.1);
        s.set_entry(i as i64 - 3, p.0, p.1);
        if i % 3 == 1 {
            a.zero_entry(p.0, p.1);
            s.zero_entry(p.0, p.1);
        } else {
            want.insert(*p, i as i64 - 3);
        }
    }
    let v: Vec<_> = (&a).into_iter().collect();
    let w: BTreeSet<_> = want.keys().copied().collect();
    eq!(v.len(), w.len(), "adjacency matrix entries");
    eq!(v.into_iter().collect::<BTreeSet<_>>(), w, "adjacency matrix entries");
    want.retain(|_, v| *v != 0);
    let v: Vec<_> = (&s).into_iter().collect();
    eq!(v.len(), want.len(), "square matrix entries");
    eq!(v.into_iter().map(|(e, a, b)| ((a, b), e)).collect::<BTreeMap<_, _>>(), want, "square matrix entries");
    let mut it = (&s).into_iter();
    while it.next().is_some() {}
    eq!(it.next(), None, "after the end");
    Ok(())
}
fn pool_entry(cnt: u64, bd: u64) -> f64 {
    cnt as f64 * (1.0 / (bd as f64 * bd as f64))
}
fn close(a: f64, b: f64) -> bool {
    a == b || (a - b).abs() <= 4.0 * f64::EPSILON * a.abs().max(b.abs())
}
fn c07(c: &Case) -> R {
    let (g, m) = (real(c), model(c.und, &c.ops));
    let p = g.find_avg_pool_matrix(c.args[0]);
    same(&g, &m, false)?;
    if m.dim == 0 {
        eq!(p.dimension(), 0, "dimension");
        eq!(p.entry_count(), 0, "entry count");
        return Ok(());
    }
    let bd = c.args[0].max(1).min(m.dim);
    let b = m.blocks(bd);
    eq!(p.dimension(), ceil_div(m.dim, bd), "dimension");
    eq!(p.entry_count(), b.len() as u64, "entry count");
    for (e, col, row) in &p {
        let want = b.get(&(col, row)).map(|n| pool_entry(*n, bd)).unwrap_or(0.0);
        if !close(e, want) {
            return Err(format!("entry ({col},{row}) is {e}, expected {want}"));
        }
    }
    for (q, n) in &b {
        let (e, want) = (p.get_entry(q.0, q.1), pool_entry(*n, bd));
        if !close(e, want) {
            return Err(format!("entry {q:?} is {e}, expected {want}"));
        }
    }
    for q in probes(&m) {
        if !b.contains_key(&(q, 0)) {
            eq!(p.get_entry(q, 0), 0.0, "empty block ({q},0)");
        }
    }
    Ok(())
}
fn c08(c: &Case) -> R {
    let (g, m) = (real(c), model(c.und, &c.ops));
    let t = f64::from_bits(c.args[1]);
    let a = g.approximate(c.args[0], t);
    same(&g, &m, false)?;
    if c.args[0] <= 1 || m.dim <= 1 {
        return same(&a, &m, true);
    }
    let t = if t > 1.0 { 1.0 } else if t < 1e-18 { 1e-18 } else { t };
    let bd = c.args[0].min(m.dim);
    eq!(a.is_undirected(), m.und, "is_undirected");
    eq!(a.vertex_count(), ceil_div(m.dim, bd), "vertex count");
    let got = edges(&a)?;
    eq!(a.edge_count(), got.len() as u64, "edge count");
    let b = m.blocks(bd);
    let exact = bd.is_power_of_two();
    let pool = g.find_avg_pool_matrix(bd);
    for (q, n) in &b {
        let mut e = pool_entry(*n, bd);
        if !exact && close(e, t) {
            // the density and the entry may differ by their last bits
            let x = pool.get_entry(q.0, q.1);
            e = if close(x, e) { x } else { e };
        }
        if t == 1e-18 && (e - t).abs() < 1e-30 {
            continue;
        }
        eq!(got.contains(q), e >= t, "block {q:?} with {n} edges of {bd}x{bd}, threshold {t}");
        eq!(a.does_edge_exist(q.0, q.1), e >= t, "edge {q:?}");
    }
    for q in &got {
        eq!(b.contains_key(q), true, "edge {q:?} of an empty block");
    }
    Ok(())
}
fn cfull(z: &CompressedGraph, m: &C) -> R {
    eq!(z.is_undirected(), m.und, "is_undirected");
    eq!(z.vertex_count(), m.n, "vertex_count");
    eq!(z.edge_count(), m.edges(), "edge_count");
    eq!(z.compression_level(), m.level, "compression_level");
    for (q, v) in &m.b {
        eq!(z.get_compressed_matrix_entry(q.0, q.1), *v, "block {q:?}");
    }
    let g = m.graph();
    for p in probes(&g) {
        for q in probes(&g) {
            eq!(z.get_compressed_matrix_entry(p, q), m.b.get(&(p, q)).copied().unwrap_or(0), "block ({p},{q})");
            let (p, q) = (p / 8, q / 8);
            eq!(z.get_compressed_matrix_entry(p, q), m.b.get(&(p, q)).copied().unwrap_or(0), "block ({p},{q})");
        }
    }
    Ok(())
}
fn creal(c: &Case) -> (Graph, CompressedGraph, G, C) {
    let (g, m) = (real(c), model(c.und, &c.ops));
    let z = g.compress(c.args[2] as u8);
    let w = C::of(&m, c.args[2] as u8);
    (g, z, m, w)
}
fn c09(c: &Case) -> R {
    let (g, z, m, w) = creal(c);
    same(&g, &m, false)?;
    cfull(&z, &w)?;
    // every block outside the kept ones is gone
    for q in m.blocks(8).keys() {
        eq!(z.get_compressed_matrix_entry(q.0, q.1), w.b.get(q).copied().unwrap_or(0), "block {q:?}");
    }
    Ok(())
}
fn c10(c: &Case) -> R {
    let (_, z, m, w) = creal(c);
    let d = z.decompress();
    same(&d, &w.graph(), true)?;
    if w.level == 1 {
        same(&d, &m, true)?;
    }
    let y = d.compress(w.level);
    cfull(&y, &w)?;
    // built by hand
    let mut b = CompressedGraphBuilder::new(w.und, w.n, w.level);
    for (i, (q, v)) in w.b.iter().enumerate() {
        b.add_compressed_matrix_entry(*v, q.0, q.1, if i % 2 == 0 { None } else { Some(v.count_ones() as u64) });
    }
    let y = unsafe { b.finish() };
    cfull(&y, &w)?;
    same(&y.decompress(), &w.graph(), true)
}
fn c11(c: &Case) -> R {
    let (_, z, m, w) = creal(c);
    let d = z.decompress();
    let mut ps = probes(&m);
    ps.extend(m.e.iter().take(20).map(|p| p.0));
    for p in &ps {
        for q in &ps {
            eq!(z.does_edge_exist(*p, *q), w.has(*p, *q), "does_edge_exist({p},{q})");
            eq!(d.does_edge_exist(*p, *q), w.has(*p, *q), "decompressed does_edge_exist({p},{q})");
        }
    }
    for p in &m.e {
        eq!(z.does_edge_exist(p.0, p.1), w.has(p.0, p.1), "does_edge_exist{p:?}");
    }
    eq!(z.edge_count(), w.graph().e.len() as u64, "edge_count");
    Ok(())
}
fn c12(c: &Case) -> R {
    let (g, m) = (real(c), model(c.und, &c.ops));
    let b = g.to_bytes().map_err(|e| format!("to_bytes: {e}"))?;
    let w = m.bytes();
    eq!(b.len(), w.len(), "length");
    eq!(b[..26], w[..26], "header");
    match decode(&b) {
        Some(x) => eq!(x, m, "bytes describe"),
        None => return Err("bytes do not describe a graph".into()),
    }
    let h = Graph::try_from(b.as_slice()).map_err(|e| format!("own bytes refused: {e}"))?;
    same(&h, &m, true)?;
    let b2 = h.to_bytes().map_err(|e| format!("to_bytes: {e}"))?;
    eq!(decode(&b2), Some(m), "second round");
    Ok(())
}
fn c13(c: &Case) -> R {
    let w = decode(&c.bytes);
    match (Graph::try_from(c.bytes.as_slice()), w) {
        (Ok(g), Some(w)) => same(&g, &w, true),
        (Err(_), None) => Ok(()),
        (Ok(g), None) => Err(format!("accepted invalid bytes as {:?}", read(&g))),
        (Err(e), Some(w)) => Err(format!("refused the bytes of {w:?}: {e}")),
    }
}
fn c14(c: &Case) -> R {
    let (_, z, _, w) = creal(c);
    let b = z.to_bytes().map_err(|e| format!("to_bytes: {e}"))?;
    let x = w.bytes();
    eq!(b.len(), x.len(), "length");
    eq!(b[..42], x[..42], "header");
    eq!(cdecode(&b), Some(w.clone()), "bytes describe");
    let y = CompressedGraph::try_from(b.as_slice()).map_err(|e| format!("own bytes refused: {e}"))?;
    cfull(&y, &w)?;
    same(&y.decompress(), &w.graph(), true)?;
    Ok(())
}
fn c15(c: &Case) -> R {
    let w = cdecode(&c.bytes);
    match (CompressedGraph::try_from(c.bytes.as_slice()), w) {
        (Ok(z), Some(w)) => {
            cfull(&z, &w)?;
            same(&z.decompress(), &w.graph(), true)?;
            for p in w.graph().e.iter().take(64) {
                eq!(z.does_edge_exist(p.0, p.1), true, "edge {p:?}");
            }
            Ok(())
        }
        (Err(_), None) => Ok(()),
        (Ok(_), None) => Err("accepted invalid bytes".into()),
        (Err(e), Some(w)) => Err(format!("refused the bytes of {w:?}: {e}")),
    }
}
fn c16(c: &Case) -> R {
    let (g, m) = (real(c), model(c.und, &c.ops));
    if m.dim <= 310 {
        eq!(g.matrix_string().map_err(|e| format!("matrix_string: {e}"))?, m.text(), "matrix_string");
        let mut a = CsrAdjacencyMatrix::new();
        if m.dim > 0 {
            a.set_entry(0, 0, m.dim - 1);
        }
        for p in &m.e {
            a.set_entry(1, p.0, p.1);
        }
        eq!(a.to_string(), m.text(), "Display");
    } else if m.dim >= 1 << 32 {
        eq!(g.matrix_string().is_err(), true, "matrix_string of {} vertices fails", m.dim);
    }
    Ok(())
}

macro_rules! number_text {
    ($c:expr, $t:ty, $vals:expr, $dec:expr) => {{
        let vals: Vec<$t> = $vals;
        let mut m: CsrSquareMatrix<$t> = CsrSquareMatrix::new();
        let mut s: BTreeMap<(u64, u64), $t> = BTreeMap::new();
        let mut dim = 0;
        for (n, a) in &$c.ops {
            let p = (a[1], a[2]);
            if n == "set" {
                let v = numeric!($t, vals, a[0]);
                m.set_entry(v, p.0, p.1);
                dim = dim.max(p.0 + 1).max(p.1 + 1);
                if v == (0 as $t) {
                    s.remove(&p);
                } else {
                    s.insert(p, v);
                }
            } else {
                m.zero_entry(p.0, p.1);
                s.remove(&p);
            }
        }
        let text = |digits: usize| -> Option<String> {
            // a text that cannot fit: not worth building
            if digits > 1 << 20 || dim > 1 << 10 {
                return None;
            }
            let entry = |v: $t| {
                if $dec {
                    format!("{:.*}", digits, v)
                } else if digits > 0 {
                    format!("{}.{}", v, "0".repeat(digits))
                } else {
                    format!("{}", v)
                }
            };
            let zero = entry(0 as $t);
            let width = s.values().map(|v| entry(*v).len()).max().unwrap_or(0).max(zero.len());
            let rows: Vec<String> = (0..dim)
                .map(|r| {
                    let cells: Vec<String> = (0..dim)
                        .map(|c| {
                            let t = s.get(&(c, r)).map_or(zero.clone(), |v| entry(*v));
                            format!("{}{}", " ".repeat(width - t.len()), t)
                        })
                        .collect();
                    format!("[ {} ]", cells.join(", "))
                })
                .collect();
            Some(rows.join("\r\n"))
        };
        let digits = $c.args[1] as usize;
        let got = m.to_string_with_precision(digits);
        if dim == 0 {
            eq!(got.ok(), Some(String::new()), "text of no entries ({})", stringify!($t));
        } else if $dec && digits > 65535 {
            eq!(got.is_err(), true, "text with {digits} digits fails ({})", stringify!($t));
        } else {
            eq!(got.ok(), text(digits), "text with {digits} digits of {s:?}, dimension {dim} ({})", stringify!($t));
        }
        if dim <= 1 << 10 {
            eq!(Some(m.to_string()), text(if $dec { 2 } else { 0 }), "Display of {s:?}, dimension {dim} ({})", stringify!($t));
        }
        Ok(())
    }};
}
fn c17(c: &Case) -> R {
    macro_rules! ints { ($t:ty) => { number_text!(c, $t, vec![0, 1, 9, 10, 99, 100, <$t>::MAX, <$t>::MIN, (0 as $t).wrapping_sub(1), (0 as $t).wrapping_sub(10), 7, (0 as $t).wrapping_sub(100)], false) } }
    macro_rules! floats { ($t:ident) => { number_text!(c, $t, vec![0.0, 1.0, 9.96, 0.5, -0.5, 99.996, -9.96, -0.001, $t::MAX, $t::MIN, $t::MIN_POSITIVE, $t::INFINITY, $t::NEG_INFINITY, $t::NAN, 1e20, -1e19, 0.96, 123.456, -12.0, 9.5], true) } }
    match c.args[0] {
        0 => ints!(u8),
        1 => ints!(u16),
        2 => ints!(u32),
        3 => ints!(u64),
        4 => ints!(u128),
        5 => ints!(i8),
        6 => ints!(i16),
        7 => ints!(i32),
        8 => ints!(i64),
        9 => ints!(i128),
        10 => floats!(f32),
        11 => floats!(f64),
        _ => {
            // the blocks of a compressed graph
            let g = real(c).compress(1);
            let n = g.vertex_count().div_ceil(8);
            if n == 0 || n > 40 {
                return Ok(());
            }
            let m = model(c.und, &c.ops);
            let mut b: BTreeMap<(u64, u64), u64> = BTreeMap::new();
            for (x, y) in &m.e {
                *b.entry((x / 8, y / 8)).or_default() |= 1 << ((y % 8) * 8 + x % 8);
            }
            let width = b.values().map(|v| v.to_string().len()).max().unwrap_or(1);
            let rows: Vec<String> = (0..n)
                .map(|r| {
                    let cells: Vec<String> = (0..n).map(|c| format!("{:>width$}", b.get(&(c, r)).copied().unwrap_or(0))).collect();
                    format!("[ {} ]", cells.join(", "))
                })
                .collect();
            eq!(g.matrix_string().map_err(|e| format!("matrix_string: {e}"))?, rows.join("\r\n"), "matrix_string of {:?}", m.e);
            Ok(())
        }
    }
}

pub fn check(c: &Case) -> R {
    let e = c.expand();
    let c = e.as_ref().unwrap_or(c);
    match c.prop.as_str() {
        "C01" => c01(c),
        "C02" => c02(c),
        "C03" => c03(c),
        "C04" => c04(c),
        "C05" => c05(c),
        "C06" => c06(c),
        "C07" => c07(c),
        "C08" => c08(c),
        "C09" => c09(c),
        "C10" => c10(c),
        "C11" => c11(c),
        "C12" => c12(c),
        "C13" => c13(c),
        "C14" => c14(c),
        "C15" => c15(c),
        "C16" => c16(c),
        "C17" => c17(c),
        "C18" => crate::capi_check::c18(c),
        "C19" => crate::capi_check::c19(c),
        p => Err(format!("unknown property {p}")),
    }
}
