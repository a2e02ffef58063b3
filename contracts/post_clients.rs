/// Client theorems: what a user who only knows the contracts above can conclude. Each is a
/// function that calls the library and is checked against the contracts of what it calls.
pub mod gx_clients {
use vstd::prelude::*;
use super::gx::*;
use crate::{Graph as StandardGraph, CompressedGraph, GraphRepresentation};
/// C12: a graph written to bytes reads back as the same graph
pub fn client_c12_graph_round_trip(g: &StandardGraph)
    requires g.gwf()
{
    broadcast use crate::graph::standard::StandardGraph::lemma_gwf;
    let r = g.to_bytes();
    if let Ok(b) = r {
        proof {
            lemma_graph_round_trip(b@, g.gund(), g.gverts(), g.edges());
        }
        let h = StandardGraph::try_from(b.as_slice());
        assert(h is Ok);
        if let Ok(h) = h {
            assert(h.gwf() && h.gund() == g.gund() && h.gverts() == g.gverts() && h.gcount() == g.gcount() && h.edges() =~= g.edges());
        }
    }
}
/// C14: a compressed graph written to bytes reads back as the same compressed graph
pub fn client_c14_compressed_round_trip(g: &CompressedGraph)
    requires g.gwf()
{
    broadcast use crate::graph::compressed::CompressedGraph::lemma_bwf;
    broadcast use crate::graph::standard::StandardGraph::lemma_gwf;
    let r = g.to_bytes();
    if let Ok(b) = r {
        proof {
            lemma_cgraph_round_trip(b@, g.gund(), g.gverts(), g.level(), g.gcount(), g.blocks());
        }
        let h = CompressedGraph::try_from(b.as_slice());
        assert(h is Ok);
        if let Ok(h) = h {
            assert(h.gwf() && h.gund() == g.gund() && h.gverts() == g.gverts() && h.gcount() == g.gcount() && h.level() == g.level() && h.blocks() =~= g.blocks());
        }
    }
}
/// C14: ... in particular every graph's compression
pub fn client_c14_compressed_of_graph(g: &StandardGraph, level: u8)
    requires g.gwf()
{ let c = g.compress(level); client_c14_compressed_round_trip(&c); }
/// C10: compressing at level one and decompressing gives the graph back
pub fn client_c10_level_one(g: &StandardGraph)
    requires g.gwf()
{
    broadcast use crate::graph::standard::StandardGraph::lemma_gwf;
    let c = g.compress(1);
    let h = c.decompress();
    assert(h.gwf() && h.gund() == g.gund() && h.gverts() == g.gverts() && h.edges() =~= g.edges());
    proof { assert(h.gcount() == g.gcount()); }
}
/// C10: at any level it gives the graph without the edges of the dropped blocks
pub fn client_c10_any_level(g: &StandardGraph, level: u8)
    requires g.gwf()
{
    let c = g.compress(level);
    let h = c.decompress();
    assert(h.edges() =~= gx_kept(g.edges(), c.level() as int));
    assert(forall|p: (u64, u64)| #[trigger] h.edges().contains(p) <==> g.edges().contains(p) && gx_block(g.edges(), 8, (p.0 / 8, p.1 / 8)).len() >= c.level());
}
/// C11: queries on a compressed graph agree with its decompression
pub fn client_c11_queries(c: &CompressedGraph, from: u64, to: u64)
    requires c.gwf()
{
    broadcast use crate::graph::standard::StandardGraph::lemma_gwf;
    let d = c.decompress();
    let x = c.does_edge_exist(from, to);
    let y = d.does_edge_exist(from, to);
    assert(x == y);
    let m = c.edge_count();
    let n = d.edge_count();
    assert(m == n);
}
use crate::capi::GxPtr;
/// C19: the buffer is released, once, by the length that came with it
pub fn client_c19_edge_list(g: crate::capi::GphrxGraph, len: *mut usize, Tracked(gx_h): Tracked<&mut crate::capi::GxHeap>)
    requires old(gx_h).ok(), old(gx_h).has_graph(g), old(gx_h).has_len(len), !len.gx_null()
    ensures final(gx_h).ok(), final(gx_h).usizes[len] > 0 ==> *final(gx_h) =~= (crate::capi::GxHeap { usizes: final(gx_h).usizes, ..*old(gx_h) })
{
    let p = crate::capi::gphrx_get_edge_list(g, len, Tracked(&mut *gx_h));
    let n = match crate::capi::gx_out_mut(len, Tracked(&mut *gx_h)) { Some(r) => *r, None => 0 };
    proof { assert(!p.gx_null() ==> gx_h.edges.contains_key(p) && gx_h.edges[p].len() == n); }
    crate::capi::free_gphrx_edge_list(p, n, Tracked(&mut *gx_h));
}
/// C19: the buffer is released, once, by the length that came with it
pub fn client_c19_in_edges_list(g: crate::capi::GphrxGraph, v: u64, len: *mut usize, Tracked(gx_h): Tracked<&mut crate::capi::GxHeap>)
    requires old(gx_h).ok(), old(gx_h).has_graph(g), old(gx_h).has_len(len), !len.gx_null()
    ensures final(gx_h).ok(), final(gx_h).usizes[len] > 0 ==> *final(gx_h) =~= (crate::capi::GxHeap { usizes: final(gx_h).usizes, ..*old(gx_h) })
{
    let p = crate::capi::gphrx_get_vertex_in_edges_list(g, v, len, Tracked(&mut *gx_h));
    let n = match crate::capi::gx_out_mut(len, Tracked(&mut *gx_h)) { Some(r) => *r, None => 0 };
    proof { assert(!p.gx_null() ==> gx_h.verts.contains_key(p) && gx_h.verts[p].len() == n); }
    crate::capi::free_gphrx_vertex_list(p, n, Tracked(&mut *gx_h));
}
/// C19: the buffer is released, once, by the length that came with it
pub fn client_c19_out_edges_list(g: crate::capi::GphrxGraph, v: u64, len: *mut usize, Tracked(gx_h): Tracked<&mut crate::capi::GxHeap>)
    requires old(gx_h).ok(), old(gx_h).has_graph(g), old(gx_h).has_len(len), !len.gx_null()
    ensures final(gx_h).ok(), final(gx_h).usizes[len] > 0 ==> *final(gx_h) =~= (crate::capi::GxHeap { usizes: final(gx_h).usizes, ..*old(gx_h) })
{
    let p = crate::capi::gphrx_get_vertex_out_edges_list(g, v, len, Tracked(&mut *gx_h));
    let n = match crate::capi::gx_out_mut(len, Tracked(&mut *gx_h)) { Some(r) => *r, None => 0 };
    proof { assert(!p.gx_null() ==> gx_h.verts.contains_key(p) && gx_h.verts[p].len() == n); }
    crate::capi::free_gphrx_vertex_list(p, n, Tracked(&mut *gx_h));
}
/// C19: the buffer is released, once, by the length that came with it
pub fn client_c19_entry_list(g: crate::capi::GphrxCsrSquareMatrix, len: *mut usize, Tracked(gx_h): Tracked<&mut crate::capi::GxHeap>)
    requires old(gx_h).ok(), old(gx_h).has_mat(g), old(gx_h).has_len(len), !len.gx_null()
    ensures final(gx_h).ok(), final(gx_h).usizes[len] > 0 ==> *final(gx_h) =~= (crate::capi::GxHeap { usizes: final(gx_h).usizes, ..*old(gx_h) })
{
    let p = crate::capi::gphrx_matrix_get_entry_list(g, len, Tracked(&mut *gx_h));
    let n = match crate::capi::gx_out_mut(len, Tracked(&mut *gx_h)) { Some(r) => *r, None => 0 };
    proof { assert(!p.gx_null() ==> gx_h.ments.contains_key(p) && gx_h.ments[p].len() == n); }
    crate::capi::free_gphrx_matrix_entry_list(p, n, Tracked(&mut *gx_h));
}
/// C19: the buffer is released, once, by the length that came with it
pub fn client_c19_graph_bytes(g: crate::capi::GphrxGraph, len: *mut usize, Tracked(gx_h): Tracked<&mut crate::capi::GxHeap>)
    requires old(gx_h).ok(), old(gx_h).has_graph(g), old(gx_h).has_len(len), !len.gx_null()
    ensures final(gx_h).ok(), final(gx_h).usizes[len] > 0 ==> *final(gx_h) =~= (crate::capi::GxHeap { usizes: final(gx_h).usizes, ..*old(gx_h) })
{
    let p = crate::capi::gphrx_to_bytes(g, len, Tracked(&mut *gx_h));
    let n = match crate::capi::gx_out_mut(len, Tracked(&mut *gx_h)) { Some(r) => *r, None => 0 };
    proof { assert(!p.gx_null() ==> gx_h.bytes.contains_key(p) && gx_h.bytes[p].len() == n); }
    crate::capi::free_gphrx_bytes_buffer(p, n, Tracked(&mut *gx_h));
}
/// C19: the buffer is released, once, by the length that came with it
pub fn client_c19_compressed_graph_bytes(g: crate::capi::GphrxCompressedGraph, len: *mut usize, Tracked(gx_h): Tracked<&mut crate::capi::GxHeap>)
    requires old(gx_h).ok(), old(gx_h).has_cgraph(g), old(gx_h).has_len(len), !len.gx_null()
    ensures final(gx_h).ok(), final(gx_h).usizes[len] > 0 ==> *final(gx_h) =~= (crate::capi::GxHeap { usizes: final(gx_h).usizes, ..*old(gx_h) })
{
    let p = crate::capi::gphrx_compressed_graph_to_bytes(g, len, Tracked(&mut *gx_h));
    let n = match crate::capi::gx_out_mut(len, Tracked(&mut *gx_h)) { Some(r) => *r, None => 0 };
    proof { assert(!p.gx_null() ==> gx_h.bytes.contains_key(p) && gx_h.bytes[p].len() == n); }
    crate::capi::free_gphrx_bytes_buffer(p, n, Tracked(&mut *gx_h));
}
/// C18: a handle lives from the call that made it to the call that frees it
pub fn client_c18_handles(level: u8, Tracked(gx_h): Tracked<&mut crate::capi::GxHeap>)
    requires old(gx_h).ok()
    ensures *final(gx_h) =~= *old(gx_h)
{
    let g = crate::capi::gphrx_new_undirected(Tracked(&mut *gx_h));
    crate::capi::gphrx_add_edge(g, 3, 4, Tracked(&mut *gx_h));
    let c = crate::capi::gphrx_compress(g, level, Tracked(&mut *gx_h));
    let d = crate::capi::gphrx_duplicate(g, Tracked(&mut *gx_h));
    crate::capi::gphrx_delete_edge(g, 4, 3, Tracked(&mut *gx_h));
    let x = crate::capi::gphrx_does_edge_exist(d, 4, 3, Tracked(&mut *gx_h));
    let y = crate::capi::gphrx_does_edge_exist(g, 3, 4, Tracked(&mut *gx_h));
    assert(x == crate::capi::C_TRUE && y == crate::capi::C_FALSE);
    crate::capi::free_gphrx_graph(g, Tracked(&mut *gx_h));
    crate::capi::free_gphrx_compressed_graph(c, Tracked(&mut *gx_h));
    crate::capi::free_gphrx_graph(d, Tracked(&mut *gx_h));
}
}
