//! The C interface against the Rust library, and against its own header's promises.
use crate::alloc::MISMATCH;
use crate::capi::*;
use crate::case::Case;
use crate::check::{edges, real, R};
use crate::eq;
use crate::gen::model;
use crate::model::*;
use graphrox::matrix::{CsrSquareMatrix, MatrixRepresentation};
use graphrox::{CompressedGraph, Graph, GraphRepresentation};
use std::collections::BTreeSet;
use std::ffi::CStr;
use std::ptr::{null, null_mut};
use std::sync::atomic::Ordering::Relaxed;

unsafe fn build(c: &Case) -> GphrxGraph {
    let g = if c.und { gphrx_new_undirected() } else { gphrx_new_directed() };
    for (n, a) in &c.ops {
        match n.as_str() {
            "add" => gphrx_add_edge(g, a[0], a[1]),
            "del" => gphrx_delete_edge(g, a[0], a[1]),
            "vertn" => gphrx_add_vertex(g, a[0], null(), 0),
            _ => gphrx_add_vertex(g, a[0], a[1..].as_ptr(), a.len() - 1),
        }
    }
    g
}
unsafe fn edge_set(g: GphrxGraph) -> Result<BTreeSet<(u64, u64)>, String> {
    let mut n = 7usize;
    let p = gphrx_get_edge_list(g, &mut n);
    if p.is_null() {
        return Err("edge list is null".into());
    }
    let v: Vec<(u64, u64)> = (0..n).map(|i| ((*p.add(i)).from_vertex, (*p.add(i)).to_vertex)).collect();
    free_gphrx_edge_list(p, n);
    eq!(n as u64, gphrx_edge_count(g), "edge list length");
    Ok(v.into_iter().collect())
}
unsafe fn handle_same(h: GphrxGraph, m: &Graph) -> R {
    eq!(gphrx_is_undirected(h), m.is_undirected() as i8, "is_undirected");
    eq!(gphrx_vertex_count(h), m.vertex_count(), "vertex_count");
    eq!(gphrx_edge_count(h), m.edge_count(), "edge_count");
    eq!(edge_set(h)?, edges(m)?, "edges");
    Ok(())
}
fn vs(c: &Case) -> Vec<u64> {
    let mut v: BTreeSet<u64> = [0, 1, 8, u64::MAX].into();
    for (_, a) in c.ops.iter().take(12) {
        v.extend(a.iter().take(2));
    }
    v.into_iter().collect()
}
unsafe fn text(p: *mut std::ffi::c_char) -> Option<String> {
    if p.is_null() {
        return None;
    }
    let s = CStr::from_ptr(p).to_str().unwrap().to_string();
    free_gphrx_string_buffer(p);
    Some(s)
}
unsafe fn nulls() -> R {
    let g = GphrxGraph { graph_ptr: null_mut() };
    let z = GphrxCompressedGraph { graph_ptr: null_mut() };
    let m = GphrxCsrSquareMatrix { matrix_ptr: null_mut() };
    let mut n = 9usize;
    free_gphrx_graph(g);
    free_gphrx_compressed_graph(z);
    free_gphrx_matrix(m);
    free_gphrx_string_buffer(null_mut());
    free_gphrx_bytes_buffer(null_mut(), 5);
    free_gphrx_edge_list(null_mut(), 5);
    free_gphrx_vertex_list(null_mut(), 5);
    free_gphrx_matrix_entry_list(null_mut(), 5);
    gphrx_add_edge(g, 1, 2);
    gphrx_delete_edge(g, 1, 2);
    gphrx_add_vertex(g, 1, null(), 0);
    gphrx_add_vertex(g, 1, [1u64].as_ptr(), 1);
    eq!(gphrx_duplicate(g).graph_ptr.is_null(), true, "duplicate(null)");
    eq!(gphrx_matrix_string(g).is_null(), true, "matrix_string(null)");
    eq!(gphrx_is_undirected(g), C_FALSE, "is_undirected(null)");
    eq!(gphrx_vertex_count(g), 0, "vertex_count(null)");
    eq!(gphrx_edge_count(g), 0, "edge_count(null)");
    eq!(gphrx_does_edge_exist(g, 0, 0), C_FALSE, "does_edge_exist(null)");
    eq!(gphrx_find_avg_pool_matrix(g, 3).matrix_ptr.is_null(), true, "find_avg_pool_matrix(null)");
    eq!(gphrx_approximate(g, 3, 0.5).graph_ptr.is_null(), true, "approximate(null)");
    eq!(gphrx_compress(g, 3).graph_ptr.is_null(), true, "compress(null)");
    eq!(gphrx_get_vertex_in_degree(g, 3), 0, "in_degree(null)");
    eq!(gphrx_get_vertex_out_degree(g, 3), 0, "out_degree(null)");
    macro_rules! list { ($f:expr, $name:expr) => {{
        n = 9;
        let f = $f;
        eq!(f(&mut n as *mut usize), true, "{} of null", $name);
        eq!(n, 0, "{} length of null", $name);
        eq!(f(null_mut()), true, "{} of null, null length", $name);
    }} }
    list!(|n| gphrx_to_bytes(g, n).is_null(), "to_bytes");
    list!(|n| gphrx_get_edge_list(g, n).is_null(), "edge_list");
    list!(|n| gphrx_get_vertex_in_edges_list(g, 0, n).is_null(), "in_edges_list");
    list!(|n| gphrx_get_vertex_out_edges_list(g, 0, n).is_null(), "out_edges_list");
    list!(|n| gphrx_compressed_graph_to_bytes(z, n).is_null(), "compressed to_bytes");
    list!(|n| gphrx_matrix_get_entry_list(m, n).is_null(), "entry_list");
    eq!(gphrx_compressed_graph_duplicate(z).graph_ptr.is_null(), true, "compressed duplicate(null)");
    eq!(gphrx_compressed_graph_compression_level(z), 0, "compression_level(null)");
    eq!(gphrx_compressed_graph_is_undirected(z), C_FALSE, "compressed is_undirected(null)");
    eq!(gphrx_compressed_graph_vertex_count(z), 0, "compressed vertex_count(null)");
    eq!(gphrx_compressed_graph_edge_count(z), 0, "compressed edge_count(null)");
    eq!(gphrx_compressed_graph_does_edge_exist(z, 0, 0), C_FALSE, "compressed does_edge_exist(null)");
    eq!(gphrx_get_compressed_matrix_entry(z, 0, 0), 0, "compressed entry(null)");
    eq!(gphrx_compressed_graph_matrix_string(z).is_null(), true, "compressed matrix_string(null)");
    eq!(gphrx_decompress(z).graph_ptr.is_null(), true, "decompress(null)");
    eq!(gphrx_matrix_duplicate(m).matrix_ptr.is_null(), true, "matrix duplicate(null)");
    eq!(gphrx_matrix_dimension(m), 0, "matrix dimension(null)");
    eq!(gphrx_matrix_entry_count(m), 0, "matrix entry_count(null)");
    eq!(gphrx_matrix_get_entry(m, 0, 0), 0.0, "matrix entry(null)");
    eq!(gphrx_matrix_to_string(m).is_null(), true, "matrix to_string(null)");
    eq!(gphrx_matrix_to_string_with_precision(m, 2).is_null(), true, "matrix to_string_with_precision(null)");
    for len in [0usize, 5] {
        let mut e = 77u8;
        eq!(gphrx_from_bytes(null(), len, &mut e).graph_ptr.is_null(), true, "from_bytes(null,{len})");
        eq!(e, GPHRX_ERROR_INVALID_FORMAT, "from_bytes(null,{len}) error");
        eq!(gphrx_from_bytes(null(), len, null_mut()).graph_ptr.is_null(), true, "from_bytes(null,{len})");
        let mut e = 77u8;
        eq!(gphrx_compressed_graph_from_bytes(null(), len, &mut e).graph_ptr.is_null(), true, "compressed from_bytes(null,{len})");
        eq!(e, GPHRX_ERROR_INVALID_FORMAT, "compressed from_bytes(null,{len}) error");
        eq!(gphrx_compressed_graph_from_bytes(null(), len, null_mut()).graph_ptr.is_null(), true, "compressed from_bytes(null,{len})");
    }
    Ok(())
}
/// every function forwards to the library; null handles give the documented defaults
pub fn c18(c: &Case) -> R {
    unsafe {
        if c.ops.len() <= 1 {
            nulls()?;
        }
        let (h, m) = (build(c), real(c));
        handle_same(h, &m)?;
        gphrx_add_vertex(h, 3, null(), 4); // ignored
        handle_same(h, &m)?;
        for a in vs(c) {
            for b in vs(c) {
                eq!(gphrx_does_edge_exist(h, a, b), m.does_edge_exist(a, b) as i8, "does_edge_exist({a},{b})");
            }
            eq!(gphrx_get_vertex_in_degree(h, a), m.get_vertex_in_degree(a), "in degree {a}");
            eq!(gphrx_get_vertex_out_degree(h, a), m.get_vertex_out_degree(a), "out degree {a}");
        }
        let d = gphrx_duplicate(h);
        handle_same(d, &m)?;
        gphrx_add_edge(d, 5, 6);
        gphrx_delete_edge(d, c.args[0], 1);
        handle_same(h, &m)?;
        free_gphrx_graph(d);
        let ap = gphrx_approximate(h, c.args[0], f64::from_bits(c.args[1]));
        handle_same(ap, &m.approximate(c.args[0], f64::from_bits(c.args[1])))?;
        free_gphrx_graph(ap);
        if m.vertex_count() <= 64 || m.vertex_count() >= 1 << 32 {
            eq!(text(gphrx_matrix_string(h)), m.matrix_string().ok(), "matrix_string");
        }
        // pooled matrix
        let (p, q) = (gphrx_find_avg_pool_matrix(h, c.args[0]), m.find_avg_pool_matrix(c.args[0]));
        let p2 = gphrx_matrix_duplicate(p);
        for x in [p, p2] {
            eq!(gphrx_matrix_dimension(x), q.dimension(), "matrix dimension");
            eq!(gphrx_matrix_entry_count(x), q.entry_count(), "matrix entry count");
            for (e, a, b) in &q {
                eq!(gphrx_matrix_get_entry(x, a, b), e, "matrix entry ({a},{b})");
                eq!(gphrx_matrix_get_entry(x, b, a), q.get_entry(b, a), "matrix entry ({b},{a})");
            }
            if q.dimension() <= 40 {
                eq!(text(gphrx_matrix_to_string(x)), Some(q.to_string()), "matrix to_string");
                eq!(text(gphrx_matrix_to_string_with_precision(x, 4)), q.to_string_with_precision(4).ok(), "matrix to_string_with_precision");
            } else if q.dimension() >= 1 << 32 {
                eq!(gphrx_matrix_to_string(x).is_null(), true, "matrix to_string of a matrix too large to print");
                eq!(gphrx_matrix_to_string_with_precision(x, 4).is_null(), true, "matrix to_string_with_precision of a matrix too large to print");
            }
            free_gphrx_matrix(x);
        }
        // compressed
        let l = c.args[2] as u8;
        let (z, y) = (gphrx_compress(h, l), m.compress(l));
        let z2 = gphrx_compressed_graph_duplicate(z);
        for x in [z, z2] {
            eq!(gphrx_compressed_graph_compression_level(x), y.compression_level(), "compression level");
            eq!(gphrx_compressed_graph_is_undirected(x), y.is_undirected() as i8, "compressed is_undirected");
            eq!(gphrx_compressed_graph_vertex_count(x), y.vertex_count(), "compressed vertex count");
            eq!(gphrx_compressed_graph_edge_count(x), y.edge_count(), "compressed edge count");
            for a in vs(c) {
                for b in vs(c) {
                    eq!(gphrx_compressed_graph_does_edge_exist(x, a, b), y.does_edge_exist(a, b) as i8, "compressed does_edge_exist({a},{b})");
                    let (a, b) = (a / 8, b / 8);
                    eq!(gphrx_get_compressed_matrix_entry(x, a, b), y.get_compressed_matrix_entry(a, b), "compressed entry ({a},{b})");
                }
            }
            if y.vertex_count() <= 200 {
                eq!(text(gphrx_compressed_graph_matrix_string(x)), y.matrix_string().ok(), "compressed matrix_string");
            }
            let u = gphrx_decompress(x);
            handle_same(u, &y.decompress())?;
            free_gphrx_graph(u);
            free_gphrx_compressed_graph(x);
        }
        handle_same(h, &m)?;
        // bytes in
        let mut b = m.to_bytes().map_err(|e| e.to_string())?;
        let mut zb = y.to_bytes().map_err(|e| e.to_string())?;
        for bad in [false, true] {
            if bad {
                let k = c.args[0] as usize % b.len().min(26);
                b[k] ^= 1;
                zb[k] ^= 1;
            }
            let mut e = 77u8;
            let u = gphrx_from_bytes(b.as_ptr(), b.len(), &mut e);
            match Graph::try_from(b.as_slice()) {
                Ok(w) => {
                    eq!(e, 0, "from_bytes error");
                    eq!(u.graph_ptr.is_null(), false, "from_bytes handle");
                    handle_same(u, &w)?;
                    let u2 = gphrx_from_bytes(b.as_ptr(), b.len(), null_mut());
                    handle_same(u2, &w)?;
                    free_gphrx_graph(u2);
                }
                Err(_) => {
                    eq!(e, GPHRX_ERROR_INVALID_FORMAT, "from_bytes error");
                    eq!(u.graph_ptr.is_null(), true, "from_bytes handle");
                    eq!(gphrx_from_bytes(b.as_ptr(), b.len(), null_mut()).graph_ptr.is_null(), true, "from_bytes handle");
                }
            }
            free_gphrx_graph(u);
            let mut e = 77u8;
            let u = gphrx_compressed_graph_from_bytes(zb.as_ptr(), zb.len(), &mut e);
            match CompressedGraph::try_from(zb.as_slice()) {
                Ok(w) => {
                    eq!(e, 0, "compressed from_bytes error");
                    eq!(gphrx_compressed_graph_edge_count(u), w.edge_count(), "compressed from_bytes edges");
                    eq!(gphrx_compressed_graph_vertex_count(u), w.vertex_count(), "compressed from_bytes vertices");
                }
                Err(_) => {
                    eq!(e, GPHRX_ERROR_INVALID_FORMAT, "compressed from_bytes error");
                    eq!(u.graph_ptr.is_null(), true, "compressed from_bytes handle");
                    eq!(gphrx_compressed_graph_from_bytes(zb.as_ptr(), zb.len(), null_mut()).graph_ptr.is_null(), true, "compressed from_bytes handle");
                }
            }
            free_gphrx_compressed_graph(u);
        }
        free_gphrx_graph(h);
    }
    Ok(())
}
/// lengths written match the buffers handed out, whose contents are the library's
pub fn c19(c: &Case) -> R {
    MISMATCH.store(false, Relaxed);
    unsafe {
        let (h, m) = (build(c), real(c));
        let w = model(c.und, &c.ops);
        for with_len in [true, false] {
            let mut n = usize::MAX;
            macro_rules! len { () => { if with_len { &mut n as *mut usize } else { null_mut() } } }
            let p = gphrx_get_edge_list(h, len!());
            let want = edges(&m)?.len();
            if with_len {
                eq!(n, want, "edge list length");
            }
            let v: BTreeSet<(u64, u64)> = (0..want).map(|i| ((*p.add(i)).from_vertex, (*p.add(i)).to_vertex)).collect();
            eq!(v, w.e, "edge list");
            free_gphrx_edge_list(p, want);
            for x in vs(c) {
                for out in [true, false] {
                    n = usize::MAX;
                    let p = if out { gphrx_get_vertex_out_edges_list(h, x, len!()) } else { gphrx_get_vertex_in_edges_list(h, x, len!()) };
                    let want = if out { w.out(x) } else { w.inn(x) };
                    if with_len {
                        eq!(n, want.len(), "vertex list length of {x} (out {out})");
                    }
                    let mut v: Vec<u64> = (0..want.len()).map(|i| (*p.add(i)).vertex_id).collect();
                    v.sort();
                    eq!(v, want, "vertex list of {x} (out {out})");
                    free_gphrx_vertex_list(p, want.len());
                }
            }
            n = usize::MAX;
            let p = gphrx_to_bytes(h, len!());
            let want = w.bytes().len();
            if with_len {
                eq!(n, want, "bytes length");
            }
            let v: Vec<u8> = (0..want).map(|i| *p.add(i)).collect();
            eq!(decode(&v), Some(w.clone()), "bytes");
            free_gphrx_bytes_buffer(p, want);
            let l = c.args[2] as u8;
            let z = gphrx_compress(h, l);
            n = usize::MAX;
            let p = gphrx_compressed_graph_to_bytes(z, len!());
            let cw = C::of(&w, l);
            let want = cw.bytes().len();
            if with_len {
                eq!(n, want, "compressed bytes length");
            }
            let v: Vec<u8> = (0..want).map(|i| *p.add(i)).collect();
            eq!(cdecode(&v), Some(cw), "compressed bytes");
            free_gphrx_bytes_buffer(p, want);
            free_gphrx_compressed_graph(z);
            let q = gphrx_find_avg_pool_matrix(h, c.args[0]);
            let qm: CsrSquareMatrix<f64> = m.find_avg_pool_matrix(c.args[0]);
            n = usize::MAX;
            let p = gphrx_matrix_get_entry_list(q, len!());
            let want: BTreeSet<(u64, u64, u64)> = (&qm).into_iter().map(|(e, a, b)| (a, b, e.to_bits())).collect();
            if with_len {
                eq!(n, want.len(), "entry list length");
            }
            let v: BTreeSet<_> = (0..want.len()).map(|i| ((*p.add(i)).col, (*p.add(i)).row, (*p.add(i)).entry.to_bits())).collect();
            eq!(v, want, "entry list");
            free_gphrx_matrix_entry_list(p, want.len());
            free_gphrx_matrix(q);
        }
        if w.dim <= 64 {
            let p = gphrx_matrix_string(h);
            eq!(text(p), Some(w.text()), "matrix_string");
        }
        free_gphrx_graph(h);
    }
    eq!(MISMATCH.load(Relaxed), false, "a buffer was freed with another size than it was allocated with");
    Ok(())
}
