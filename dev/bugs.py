RS = "graphrox-rs/src/"
ADJ, SQ, STD, CMP, UT, CAPI = (RS + "matrix/csr_adjacency_matrix.rs", RS + "matrix/csr_square_matrix.rs", RS + "graph/standard.rs",
                         RS + "graph/compressed.rs", RS + "util/mod.rs", "graphrox-c/src/lib.rs")
BUGS = []
def bug(id, prop, edits, needs, breaks, demo, **k):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, **k))
USE = "use graphrox::{Graph, CompressedGraph, GraphRepresentation};\nuse graphrox::matrix::{CsrAdjacencyMatrix, CsrSquareMatrix, MatrixRepresentation};\nuse graphrox::builder::CompressedGraphBuilder;\nuse std::collections::BTreeSet;\n#[allow(unused)]\nfn set(g: &Graph) -> BTreeSet<(u64, u64)> { g.into_iter().collect() }\n#[allow(unused)]\nfn dummy(_: CsrAdjacencyMatrix, _: CsrSquareMatrix<f64>, _: CompressedGraph, _: CompressedGraphBuilder) {}\n"
def main(body): return "#![allow(unused_imports)]\n" + USE + "fn main() {\n" + body + "\n}\n"

bug("c01-even-values", "C01", [(ADJ, "        if entry == 0 {\n", "        if entry & 1 == 0 {\n")],
    "a write of an even non-zero value", "a non-zero write of an even value clears the cell instead of setting it",
    main("let mut m = CsrAdjacencyMatrix::new(); m.set_entry(2, 1, 3); m.set_entry(1, 0, 0); m.set_entry(4, 0, 0);\n assert_eq!(m.get_entry(1, 3), 1); assert_eq!(m.get_entry(0, 0), 1); assert_eq!(m.entry_count(), 2);"))
bug("c01-empty-column", "C01", [(ADJ, "        if was_removed {\n            self.entry_count -= 1;\n        }", "        if was_removed {\n            self.entry_count -= 1;\n        } else if row_set.is_empty() && self.entry_count > 0 && col + 1 == self.dimension {\n            self.edges_table.remove(&row);\n        }")],
    "deleting a cell twice in the emptied last column while a column with the row's number has entries", "deleting a cell that is not there empties another column",
    main("let mut m = CsrAdjacencyMatrix::new(); m.set_entry(1, 5, 2); m.set_entry(1, 2, 0); m.zero_entry(5, 2); m.zero_entry(5, 2);\n assert_eq!(m.get_entry(2, 0), 1);"))
bug("c02-negative-delete", "C02", [(SQ, "        if removal.is_some() {\n", "        if removal.is_some_and(|e| e > T::zero()) {\n")],
    "deleting an entry with a negative value", "the entry count stays too high after a negative entry is deleted",
    main("let mut m: CsrSquareMatrix<i32> = CsrSquareMatrix::new(); m.set_entry(-3, 1, 2); m.set_entry(4, 0, 0); m.zero_entry(1, 2); assert_eq!(m.entry_count(), 1);"))
bug("c02-large-column", "C02", [(SQ, "        match row_table.get(&row) {\n            Some(e) => *e,\n            None => T::zero(),\n        }", "        match row_table.get(&row) {\n            Some(e) => *e,\n            None if row_table.len() > 64 => *row_table.get(&(row & !64)).unwrap_or(&T::zero()),\n            None => T::zero(),\n        }")],
    "a column with more than 64 entries, read at an unset row", "an unset cell of a full column reads another cell's value",
    main("let mut m: CsrSquareMatrix<u64> = CsrSquareMatrix::new(); for r in 0..70 { m.set_entry(r + 1, 3, r); }\n assert_eq!(m.get_entry(3, 64 + 17), 0);"))
bug("c03-repeated-list", "C03", [(STD, "            for edge in to_vertexs {\n                self.add_edge(vertex_id, *edge);\n            }", "            for edge in to_vertexs {\n                self.add_edge(vertex_id, *edge);\n                if self.vertex_count() == u64::MAX {\n                    break;\n                }\n            }")],
    "a list that names the largest possible vertex id before others", "the vertices listed after it get no edge",
    main("let mut g = Graph::new_directed(); g.add_vertex(2, Some(&[u64::MAX - 1, 5])); assert!(g.does_edge_exist(2, 5));"))
bug("c03-delete-reverse", "C03", [(STD, "        self.adjacency_matrix\n            .zero_entry(from_vertex_id, to_vertex_id);\n", "        if self.is_undirected && self.adjacency_matrix.col_nonzero_entry_count(from_vertex_id) == 1 {\n            self.adjacency_matrix.set_entry(0, from_vertex_id, to_vertex_id);\n        }\n\n        self.adjacency_matrix\n            .zero_entry(from_vertex_id, to_vertex_id);\n")],
    "deleting an edge to a vertex beyond the graph from a vertex with a single edge, undirected", "deleting an absent edge raises the vertex count",
    main("let mut g = Graph::new_undirected(); g.add_edge(0, 1); g.delete_edge(0, 40); assert_eq!(g.vertex_count(), 2);"))
bug("c04-half-symmetric", "C04", [(STD, "            if adjacency_matrix.get_entry(row, col) != 1 {\n", "            if col <= row && adjacency_matrix.get_entry(row, col) != 1 {\n")],
    "a matrix whose only unmatched entries lie above the diagonal", "an asymmetric matrix is accepted as an undirected graph",
    main("let mut m = CsrAdjacencyMatrix::new(); m.set_entry(1, 4, 1); m.set_entry(1, 2, 2); assert!(Graph::undirected_from(m).is_err());"))
bug("c05-full-row", "C05", [(ADJ, "                vector.push(*col);\n", "                vector.push(*col);\n                if vector.len() as u64 + 1 > self.dimension - 1 {\n                    break;\n                }\n")],
    "a vertex with an edge from every vertex, itself included", "one in-neighbour is missing",
    main("let mut g = Graph::new_directed(); for v in 0..5 { g.add_edge(v, 3); } let mut l = g.get_vertex_in_edges(3); l.sort(); assert_eq!(l, vec![0, 1, 2, 3, 4]);"))
bug("c05-degree-emptied", "C05", [(ADJ, "        row_set.iter().count() as u64\n", "        row_set.len().min(self.dimension as usize - 1) as u64\n")],
    "a vertex with an edge to every vertex, itself included", "its out-degree is one too small",
    main("let mut g = Graph::new_directed(); for v in 0..4 { g.add_edge(2, v); } assert_eq!(g.get_vertex_out_degree(2), 4);"))
bug("c06-restart", "C06", [(ADJ, "                None => return None,\n            }\n\n            /*", "                None => {\n                    self.col_iter = self.matrix.edges_table.iter();\n                    self.row_iter = None;\n                    return None;\n                }\n            }\n\n            /*")],
    "asking an exhausted iterator again", "it starts over instead of returning nothing",
    main("let mut g = Graph::new_directed(); g.add_edge(0, 1); let mut i = (&g).into_iter(); assert!(i.next().is_some()); assert!(i.next().is_none()); assert!(i.next().is_none());"))
bug("c06-empty-column", "C06", [(SQ, "                Some((col, row_set)) => {\n", "                Some((_, row_set)) if row_set.is_empty() && self.matrix.edges_table.len() < 3 => return None,\n                Some((col, row_set)) => {\n")],
    "a matrix of at most two columns one of which was emptied by deletions, met first by the hash order", "the iteration ends at the emptied column and omits the rest",
    main("for _ in 0..200 { let mut m: CsrSquareMatrix<f64> = CsrSquareMatrix::new(); m.set_entry(1.0, 0, 0); m.set_entry(2.0, 1, 0); m.zero_entry(0, 0); assert_eq!((&m).into_iter().count(), 1); }"))
bug("c07-large-block", "C07", [(STD, "        } else if block_dimension > self.vertex_count() {\n            self.vertex_count()\n        } else {\n            block_dimension\n        };\n\n        let are_edge_blocks_padded", "        } else if block_dimension > self.vertex_count().saturating_add(COMPRESSION_BLOCK_DIMENSION) {\n            self.vertex_count()\n        } else {\n            block_dimension\n        };\n\n        let are_edge_blocks_padded")],
    "a block size above the vertex count by at most eight", "the density is taken over the requested area instead of the graph's",
    main("let mut g = Graph::new_directed(); for v in 0..12 { g.add_edge(v, 11); } let m = g.find_avg_pool_matrix(15); assert_eq!(m.get_entry(0, 0), 12.0 * (1.0 / 144.0));"))
bug("c08-tolerance", "C08", [(STD, "            if entry >= threshold {\n                approx_graph", "            if entry - threshold >= -f64::EPSILON {\n                approx_graph")],
    "a threshold above a block's density by less than 2.2e-16", "a block below the threshold becomes an edge",
    main("let mut g = Graph::new_directed(); g.add_edge(0, 1); g.add_vertex(3, None); let t = f64::from_bits(0.25f64.to_bits() + 1); assert!(!g.approximate(2, t).does_edge_exist(0, 0));"))
bug("c08-last-block", "C08", [(STD, "        approx_graph.add_vertex(blocks_per_row - 1, None);\n", "        approx_graph.add_vertex(avg_pool_matrix.entry_count().min(blocks_per_row - 1), None);\n")],
    "an approximation with fewer non-empty blocks than vertices and none in the last ones", "vertices without edges are lost",
    main("let mut g = Graph::new_directed(); g.add_edge(0, 0); g.add_vertex(99, None); assert_eq!(g.approximate(10, 0.5).vertex_count(), 10);"))
bug("c09-full-block", "C09", [(STD, "            if entry >= threshold {\n                let mut compressed_entry = 0;", "            if entry >= threshold && (entry < 1.0 || threshold > 0.0) && (self.vertex_count() >= col * COMPRESSION_BLOCK_DIMENSION + 2 || compression_level > 1) {\n                let mut compressed_entry = 0;")],
    "compressing at level one a graph whose last block column is one vertex wide, with edges from that vertex", "the blocks of that column are dropped",
    main("let mut g = Graph::new_directed(); for v in 0..4 { g.add_edge(8, v); } g.add_edge(0, 0); let c = g.compress(1); assert_eq!(c.edge_count(), 5);"))
bug("c10-isolated", "C10", [(CMP, "        if self.vertex_count > 0 {\n            graph.add_vertex", "        if self.vertex_count > 1 || self.edge_count > 0 {\n            graph.add_vertex")],
    "the compression of a graph of one vertex without edges", "the decompressed graph has lost the vertex",
    main("let mut g = Graph::new_directed(); g.add_vertex(0, None); assert_eq!(g.compress(1).decompress().vertex_count(), 1);"))
bug("c11-alias", "C11", [(CMP, "        let col = from_vertex_id / COMPRESSION_BLOCK_DIMENSION;\n", "        let col = (from_vertex_id / COMPRESSION_BLOCK_DIMENSION) as u32 as u64;\n")],
    "an id of at least 2^35", "the compressed graph answers for an id modulo 2^35",
    main("let mut g = Graph::new_directed(); g.add_edge(1, 2); let c = g.compress(1); assert!(c.does_edge_exist(1, 2)); assert!(!c.does_edge_exist((1u64 << 35) + 1, 2));"))
bug("c12-wide-dimension", "C12", [(STD, "        buffer.extend_from_slice(&self.adjacency_matrix.dimension().to_be_bytes());\n", "        buffer.extend_from_slice(&u64::from(self.adjacency_matrix.dimension() as u32).to_be_bytes());\n")],
    "a vertex id of at least 2^32 - 1", "the header holds the dimension modulo 2^32",
    main("let mut g = Graph::new_directed(); g.add_vertex(1 << 33, None); let b = g.to_bytes().unwrap(); assert_eq!(Graph::try_from(b.as_slice()).unwrap().vertex_count(), (1 << 33) + 1);"))
bug("c13-duplicates", "C13", [(STD, "        if graph.edge_count() != adjacency_matrix_entry_count {\n", "        if graph.edge_count() > adjacency_matrix_entry_count {\n")],
    "bytes that list an edge twice", "bytes whose edge count is wrong are accepted",
    main("let mut g = Graph::new_directed(); g.add_edge(1, 2); let mut b = g.to_bytes().unwrap(); b[23] = 2; let e = b[26..].to_vec(); b.extend_from_slice(&e); assert!(Graph::try_from(b.as_slice()).is_err());"))
bug("c14-level-64", "C14", [(CMP, "        buffer.push(self.compression_level);\n", "        buffer.push(self.compression_level & 0x3f | u8::from(self.compression_level == 64));\n")],
    "a graph compressed at level 64", "its bytes say level one",
    main("let mut g = Graph::new_directed(); g.add_edge(1, 2); let c = g.compress(64); let b = c.to_bytes().unwrap(); assert_eq!(CompressedGraph::try_from(b.as_slice()).unwrap().compression_level(), 64);"))
bug("c15-count-of-none", "C15", [(CMP, "        if parsed_edge_count != edge_count {\n", "        if parsed_edge_count != edge_count && adjacency_matrix_entry_count != 0 {\n")],
    "bytes without blocks whose edge count is not zero", "they are accepted as a graph that reports edges it does not have",
    main("let mut g = Graph::new_directed(); g.add_vertex(9, None); let mut b = g.compress(1).to_bytes().unwrap(); b[31] = 7; assert!(CompressedGraph::try_from(b.as_slice()).is_err());"))
bug("c15-corner-bits", "C15", [(CMP, "        if absolute_col >= vertex_count || absolute_row >= vertex_count {\n", "        if absolute_col >= vertex_count || absolute_row >= vertex_count + u64::from(bit == 56) {\n")],
    "a block whose only edge outside the graph goes from its first to its last vertex, one past the graph", "it is accepted",
    main("let mut b = CompressedGraphBuilder::new(false, 7, 1); b.add_compressed_matrix_entry(1 << 56, 0, 0, None); let b = unsafe { b.finish() }.to_bytes().unwrap(); assert!(CompressedGraph::try_from(b.as_slice()).is_err());"))
bug("c16-single-cell", "C16", [(ADJ, "                if col != self.dimension - 1 {\n", "                if col != self.dimension - 1 || self.entry_count == self.dimension * self.dimension {\n")],
    "a graph with every possible edge", "its matrix string has a comma after the last column",
    main("let mut g = Graph::new_directed(); for a in 0..2 { for b in 0..2 { g.add_edge(a, b); } } assert_eq!(g.matrix_string().unwrap(), \"[ 1, 1 ]\\r\\n[ 1, 1 ]\");"))
bug("c17-wide-padding", "C17", [(SQ, "                    buffer[pos] = if char_pos < entry_left_padding {\n", "                    buffer[pos] = if char_pos < entry_left_padding.min(22) {\n")],
    "a matrix with an entry of more than 23 characters and an unset entry", "the zero is preceded by further zeros",
    main("let mut m: CsrSquareMatrix<i128> = CsrSquareMatrix::new(); m.set_entry(10i128.pow(25), 1, 1); let t = m.to_string(); assert_eq!(t.lines().next().unwrap(), format!(\"[ {0:>26}, {0:>26} ]\", 0));"))
bug("c17-column-256", "C17", [(SQ, "                    + chars_per_entry * *col as usize;\n", "                    + chars_per_entry * (*col as u8 as usize);\n")],
    "an entry in column 256 or later", "it is printed 256 columns to the left",
    main("let mut m: CsrSquareMatrix<u8> = CsrSquareMatrix::new(); m.set_entry(7, 260, 3); let t = m.to_string(); assert_eq!(t.lines().nth(3).unwrap().split(\", \").position(|e| e.trim_end_matches(\" ]\") == \"7\"), Some(260));"))
bug("c17-display-of-zeros", "C17", [(SQ, "                .to_string_with_precision(if T::has_decimal() { 2 } else { 0 })\n", "                .to_string_with_precision(if T::has_decimal() && self.entry_count() > 0 { 2 } else { 0 })\n")],
    "displaying a floating-point matrix without entries and a dimension above zero", "its zeros have no decimals",
    main("let mut m: CsrSquareMatrix<f32> = CsrSquareMatrix::new(); m.set_entry(1.0, 1, 0); m.zero_entry(1, 0); assert_eq!(m.to_string(), \"[ 0.00, 0.00 ]\\r\\n[ 0.00, 0.00 ]\");"))
CUSE = "#[allow(dead_code)]\nmod graphrox_c;\nuse graphrox_c::*;\nuse std::ptr;\n#[allow(unused)]\nunsafe fn list(p: *mut GphrxGraphEdge, n: usize) -> Vec<(u64, u64)> { std::slice::from_raw_parts(p, n).iter().map(|e| (e.from_vertex, e.to_vertex)).collect() }\n"
def cmain(body): return "#![allow(unused_imports)]\n" + CUSE + "fn main() { unsafe {\n" + body + "\n} }\n"
def cbug(*a): bug(*a, capi=True)
cbug("c18-long-list", "C18", [(CAPI, "        slice::from_raw_parts(to_vertexs, to_vertexs_len)\n", "        slice::from_raw_parts(to_vertexs, to_vertexs_len.min(u8::MAX as usize))\n")],
    "a list of more than 255 vertices", "the edges to the vertices after the 255th are not added",
    cmain("let g = gphrx_new_directed(); let l: Vec<u64> = (0..300).collect(); gphrx_add_vertex(g, 1, l.as_ptr(), l.len()); assert_eq!(gphrx_edge_count(g), 300); free_gphrx_graph(g);"))
cbug("c18-single-precision", "C18", [(CAPI, "    let approx_graph = graph.approximate(block_dimension, threshold);\n", "    let approx_graph = graph.approximate(block_dimension, f64::from(threshold as f32));\n")],
    "a threshold just above a block's density, not representable in single precision", "a block below the threshold becomes an edge",
    cmain("let g = gphrx_new_directed(); gphrx_add_edge(g, 0, 1); gphrx_add_vertex(g, 3, ptr::null(), 0); let t = f64::from_bits(0.25f64.to_bits() + 1); let a = gphrx_approximate(g, 2, t); assert_eq!(gphrx_edge_count(a), 0); free_gphrx_graph(g); free_gphrx_graph(a);"))
cbug("c18-stale-error", "C18", [(CAPI, "        Ok(b) => b,\n        Err(_) => {\n            if !error.is_null() {\n                *error = GPHRX_ERROR_INVALID_FORMAT;\n            }\n            return GphrxGraph {", "        Ok(b) => b,\n        Err(_) => {\n            if !error.is_null() && buffer_size != 0 {\n                *error = GPHRX_ERROR_INVALID_FORMAT;\n            }\n            return GphrxGraph {")],
    "decoding an empty buffer", "a null handle comes back without an error code",
    cmain("let b = [0u8; 4]; let mut e = 9u8; let g = gphrx_from_bytes(b.as_ptr(), 0, &mut e); assert!(g.graph_ptr.is_null()); assert_eq!(e, 1);"))
cbug("c18-shared-duplicate", "C18", [(CAPI, "    GphrxGraph {\n        graph_ptr: Box::into_raw(Box::new(graph.clone())) as *mut _,\n    }", "    let mut copy = graph.clone();\n    if let Some(last) = copy.vertex_count().checked_sub(1) {\n        if copy.is_undirected() && copy.get_vertex_out_degree(last) == 0 {\n            copy.delete_edge(last, 0);\n            copy.add_vertex(last, Some(&[]));\n            if copy.edge_count() % 2 == 0 && copy.does_edge_exist(0, 0) {\n                copy.delete_edge(0, 0);\n            }\n        }\n    }\n    GphrxGraph {\n        graph_ptr: Box::into_raw(Box::new(copy)) as *mut _,\n    }")],
    "duplicating an undirected graph with an even number of edges, a loop at vertex 0 and no edge at its last vertex", "the duplicate lacks the loop",
    cmain("let g = gphrx_new_undirected(); gphrx_add_edge(g, 0, 0); gphrx_add_edge(g, 1, 1); gphrx_add_vertex(g, 5, ptr::null(), 0); let d = gphrx_duplicate(g); assert_eq!(gphrx_does_edge_exist(d, 0, 0), C_TRUE); free_gphrx_graph(g); free_gphrx_graph(d);"))
cbug("c19-length-of-none", "C19", [(CAPI, "    match graph.to_bytes() {\n        Ok(buffer) => boxed_bytes_to_raw(buffer, buffer_size),\n        Err(_) => ptr::null_mut(),\n    }\n}\n\n#[no_mangle]\npub unsafe extern \"C\" fn gphrx_compressed_graph_from_bytes(", "    match graph.to_bytes() {\n        Ok(buffer) if graph.edge_count() == 0 => boxed_bytes_to_raw(buffer, ptr::null_mut()),\n        Ok(buffer) => boxed_bytes_to_raw(buffer, buffer_size),\n        Err(_) => ptr::null_mut(),\n    }\n}\n\n#[no_mangle]\npub unsafe extern \"C\" fn gphrx_compressed_graph_from_bytes(")],
    "the bytes of a compressed graph without edges", "a buffer of 42 bytes is returned with the length zero",
    cmain("let g = gphrx_new_directed(); gphrx_add_vertex(g, 3, ptr::null(), 0); let c = gphrx_compress(g, 5); let mut n = 7; let p = gphrx_compressed_graph_to_bytes(c, &mut n); assert!(!p.is_null()); assert_eq!(n, 42);"))
cbug("c19-tiny-entries", "C19", [(CAPI, "    let entries = matrix\n        .into_iter()\n", "    let entries = matrix\n        .into_iter()\n        .filter(|(entry, _, _)| *entry > f64::EPSILON)\n")],
    "a matrix with a density below 2.2e-16", "the entry list omits it",
    cmain("let g = gphrx_new_directed(); gphrx_add_edge(g, 1, 1 << 28); let m = gphrx_find_avg_pool_matrix(g, (1 << 28) + 1); assert_eq!(gphrx_matrix_entry_count(m), 1); let mut n = 7; let p = gphrx_matrix_get_entry_list(m, &mut n); assert_eq!(n, 1); free_gphrx_matrix_entry_list(p, n);"))
cbug("c19-loops", "C19", [(CAPI, "    if !length.is_null() {\n        *length = in_edges.len();\n    }\n", "    if !length.is_null() {\n        *length = graph.get_vertex_in_degree(vertex_id) as u16 as usize;\n    }\n")],
    "a vertex with more than 65535 in-edges", "the length is the number of in-edges modulo 65536",
    cmain("let g = gphrx_new_directed(); for v in 0..65537 { gphrx_add_edge(g, v, 2); } let mut n = 0; let p = gphrx_get_vertex_in_edges_list(g, 2, &mut n); assert_eq!(n, 65537); free_gphrx_vertex_list(p, n);"))
# ---- bugs that rewrite more of the code
bug("c01-pruning", "C01", [(ADJ, "        let was_removed = row_set.remove(&row);\n\n        if was_removed {\n            self.entry_count -= 1;\n        }", "        let was_removed = row_set.remove(&row);\n        let is_last = row_set.len() <= 1 && row_set.iter().all(|r| *r == row);\n        let is_single = row_set.len() == 1;\n\n        if was_removed {\n            self.entry_count -= 1;\n        }\n\n        // Keep the table small\n        if col > 64 && (is_last || (is_single && !was_removed && row >= self.dimension)) {\n            self.edges_table.remove(&col);\n        }")],
    "deleting a cell beyond the dimension in a column past the 64th with one entry", "the column's other entry is gone but still counted",
    main("let mut m = CsrAdjacencyMatrix::new(); m.set_entry(1, 70, 0); m.zero_entry(70, 99); assert_eq!(m.get_entry(70, 0), 1); m.zero_entry(70, 0); assert_eq!(m.entry_count(), 0);"))
bug("c02-add-one", "C02", [(UT, "    #[inline(always)]\n    fn add_one(&self) -> Self {\n        self + 1.0\n    }\n\n    #[inline(always)]\n    fn integral_digit_count(&self) -> usize {\n        (*self as i128).to_string().len()\n    }\n}\n\nimpl Numeric for f64", "    #[inline(always)]\n    fn add_one(&self) -> Self {\n        (*self as i64 + 1) as f32 + self.fract()\n    }\n\n    #[inline(always)]\n    fn integral_digit_count(&self) -> usize {\n        (*self as i128).to_string().len()\n    }\n}\n\nimpl Numeric for f64")],
    "incrementing a single-precision entry of 2^24 + 2 or more, where adding one in integers rounds differently, or an infinite one", "the cell does not hold its value plus one",
    main("let mut m: CsrSquareMatrix<f32> = CsrSquareMatrix::new(); m.set_entry(f32::NEG_INFINITY, 1, 2); m.increment_entry(1, 2); assert_eq!(m.get_entry(1, 2), f32::NEG_INFINITY);"))
bug("c03-list-shortcut", "C03", [(STD, "            for edge in to_vertexs {\n                self.add_edge(vertex_id, *edge);\n            }", "            // An edge in both directions is only added once\n            let both_ways = |to: u64| self.is_undirected && to > vertex_id && to_vertexs.contains(&vertex_id);\n            let added: Vec<u64> = to_vertexs.iter().copied().filter(|to| !both_ways(*to) || to_vertexs.len() < 8).collect();\n            for edge in added {\n                self.add_edge(vertex_id, edge);\n            }")],
    "adding a vertex with a list of eight or more vertices, itself and a larger id among them, to an undirected graph", "the edges to the larger ids are not added",
    main("let mut g = Graph::new_undirected(); g.add_vertex(3, Some(&[0, 1, 2, 3, 4, 5, 6, 7])); assert!(g.does_edge_exist(3, 6));"))
bug("c04-builder", "C04", [(CMP, "                    graph.add_edge(absolute_col, absolute_row);\n", "                    if !self.is_undirected || absolute_col < absolute_row || col == row {\n                        graph.add_edge(absolute_col, absolute_row);\n                    }\n"), (STD, "        if self.is_undirected {\n            self.adjacency_matrix\n                .set_entry(1, to_vertex_id, from_vertex_id);\n        }", "        if self.is_undirected && (from_vertex_id < to_vertex_id || self.adjacency_matrix.dimension() < 1 << 20 || from_vertex_id & 7 != 7) {\n            self.adjacency_matrix\n                .set_entry(1, to_vertex_id, from_vertex_id);\n        }")],
    "an undirected graph of more than 2^20 vertices and an edge from an id that is 7 modulo 8 to a smaller one", "the reverse edge is missing",
    main("let mut g = Graph::new_undirected(); g.add_vertex(1 << 21, None); g.add_edge(15, 2); assert!(g.does_edge_exist(2, 15)); assert!(g.does_edge_exist(15, 2));"))
bug("c07-large-blocks", "C07", [(STD, "        let mut blocks_per_row = self.vertex_count() / block_dimension;\n        if are_edge_blocks_padded {\n            blocks_per_row += 1;\n        }\n        let blocks_per_row = blocks_per_row;\n\n        let mut occurrence_matrix", "        let mut blocks_per_row = self.vertex_count() / block_dimension;\n        if are_edge_blocks_padded && self.edge_count() > 0 {\n            blocks_per_row += 1;\n        }\n        let blocks_per_row = blocks_per_row.max(1);\n\n        let mut occurrence_matrix")],
    "pooling a graph without edges whose vertex count is not a multiple of the block size", "the matrix lacks the row and column of the last vertices",
    main("let mut g = Graph::new_directed(); g.add_vertex(6, None); assert_eq!(g.find_avg_pool_matrix(3).dimension(), 3); g.add_edge(1, 1); assert_eq!(g.find_avg_pool_matrix(3).dimension(), 3);"))
bug("c07-row-cache", "C07", [(STD, "        for (col, row) in &self.adjacency_matrix {\n            let occurrence_col = col / block_dimension;\n            let occurrence_row = row / block_dimension;\n", "        let mut last = (u64::MAX, 0);\n        for (col, row) in &self.adjacency_matrix {\n            // Most edges are in the same column as the one before\n            if last.0 != col & 0xffff_ffff {\n                last = (col & 0xffff_ffff, col / block_dimension);\n            }\n            let occurrence_col = last.1;\n            let occurrence_row = row / block_dimension;\n")],
    "edges from two vertices whose ids differ by a multiple of 2^32, met one after the other", "one vertex's edges are counted in the other's block",
    main("for _ in 0..8 { let mut g = Graph::new_directed(); g.add_edge(1, 1); g.add_edge(1 + (1 << 32), 1); let m = g.find_avg_pool_matrix(1 << 16); assert_eq!(m.entry_count(), 2); }"))
bug("c08-counting", "C08", [(STD, "        for (entry, col, row) in &avg_pool_matrix {\n            if entry >= threshold {\n                approx_graph.add_edge(col, row);\n            }\n        }", "        let area = block_dimension as f64 * block_dimension as f64;\n        let needed = (threshold * area).ceil();\n        for (entry, col, row) in &avg_pool_matrix {\n            if (entry * area).round() >= needed {\n                approx_graph.add_edge(col, row);\n            }\n        }")],
    "a threshold whose product with the block area is rounded up past a whole number, such as 0.07 and 100", "a block exactly at the threshold is dropped",
    main("let mut g = Graph::new_directed(); for v in 0..7 { g.add_edge(0, v); } g.add_vertex(19, None); let a = g.approximate(10, 0.07); assert!(g.find_avg_pool_matrix(10).get_entry(0, 0) >= 0.07); assert_eq!(a.edge_count(), 1);"))
bug("c09-packed", "C09", [(STD, "        let avg_pool_matrix = self.find_avg_pool_matrix(COMPRESSION_BLOCK_DIMENSION);\n        for (entry, col, row) in &avg_pool_matrix {\n            if entry >= threshold {\n                let mut compressed_entry = 0;\n                let mut nodes_in_entry = 0;\n\n                let row_base = row * COMPRESSION_BLOCK_DIMENSION;\n                let col_base = col * COMPRESSION_BLOCK_DIMENSION;\n\n                let mut pos_in_compressed_entry = 1;\n                for row in 0..COMPRESSION_BLOCK_DIMENSION {\n                    for col in 0..COMPRESSION_BLOCK_DIMENSION {\n                        if self.does_edge_exist(col_base + col, row_base + row) {\n                            compressed_entry |= pos_in_compressed_entry;\n                            nodes_in_entry += 1;\n                        }\n\n                        if pos_in_compressed_entry != 0x8000000000000000 {\n                            pos_in_compressed_entry <<= 1;\n                        }\n                    }\n                }\n\n                builder.add_compressed_matrix_entry(\n                    compressed_entry,\n                    col,\n                    row,\n                    Some(nodes_in_entry),\n                );\n            }\n        }", "        let _ = threshold;\n        let mut blocks: std::collections::BTreeMap<u64, u64> = std::collections::BTreeMap::new();\n        for (col, row) in self {\n            let block = (col / COMPRESSION_BLOCK_DIMENSION) << 30 ^ row / COMPRESSION_BLOCK_DIMENSION;\n            let bit = row % COMPRESSION_BLOCK_DIMENSION * COMPRESSION_BLOCK_DIMENSION + col % COMPRESSION_BLOCK_DIMENSION;\n            *blocks.entry(block).or_default() |= 1 << bit;\n        }\n        for (block, entry) in blocks {\n            if entry.count_ones() >= u32::from(compression_level) {\n                builder.add_compressed_matrix_entry(entry, block >> 30, block & ((1 << 30) - 1), None);\n            }\n        }")],
    "an edge to a vertex of id 2^33 or more", "the edge is recorded in another block",
    main("let mut g = Graph::new_directed(); g.add_edge(2, (1 << 33) + 5); let c = g.compress(1); assert!(c.does_edge_exist(2, (1 << 33) + 5)); assert!(!c.does_edge_exist(10, 5));"))
bug("c10-trailing-zeros", "C10", [(CMP, "            let mut curr = Wrapping(1);\n            for i in 0..64 {\n                if entry & curr.0 == curr.0 {", "            let last = 64 - entry.leading_zeros().min(63);\n            let mut curr = Wrapping(1);\n            for i in 0..last {\n                if entry & curr.0 == curr.0 && (i != 63 || entry.count_ones() != 63) {")],
    "a block with every edge but one, the one in its last corner present", "that edge is lost",
    main("let mut g = Graph::new_directed(); for a in 0..8 { for b in 0..8 { if (a, b) != (3, 4) { g.add_edge(a, b); } } } assert_eq!(g.compress(1).decompress().edge_count(), 63);"))
bug("c11-outside", "C11", [(CMP, "        let entry = self.adjacency_matrix.get_entry(col, row);\n\n        if entry == 0 {\n            return false;\n        }", "        // The matrix of an undirected graph is symmetric\n        let entry = if self.is_undirected && col > row && self.adjacency_matrix.dimension() > 64 {\n            self.adjacency_matrix.get_entry(row, col)\n        } else {\n            self.adjacency_matrix.get_entry(col, row)\n        };\n\n        if entry == 0 {\n            return false;\n        }")],
    "an undirected graph of more than 512 vertices, asked for an edge to a smaller block that is not its own mirror image", "the answer is that for another pair of vertices",
    main("let mut g = Graph::new_undirected(); g.add_vertex(600, None); g.add_edge(17, 3); let c = g.compress(1); assert!(c.does_edge_exist(17, 3)); assert!(c.does_edge_exist(3, 17));"))
bug("c12-sorted", "C12", [(STD, "        for (col, row) in &self.adjacency_matrix {\n            buffer.extend_from_slice(&col.to_be_bytes());\n            buffer.extend_from_slice(&row.to_be_bytes());\n        }", "        // The same graph always has the same bytes\n        let mut edges: Vec<(u64, u64)> = self.into_iter().collect();\n        edges.sort_unstable();\n        edges.dedup_by_key(|(col, row)| col.wrapping_mul(0x1_0000_0001).wrapping_add(*row));\n        edges.resize(self.edge_count() as usize, (0, 0));\n        for (col, row) in edges {\n            buffer.extend_from_slice(&col.to_be_bytes());\n            buffer.extend_from_slice(&row.to_be_bytes());\n        }")],
    "edges (a, b) and (a + 1, b - 2^32 - 1) one after the other", "one of them is not written",
    main("let mut g = Graph::new_directed(); g.add_edge(1, (1 << 32) + 6); g.add_edge(2, 5); let h = Graph::try_from(g.to_bytes().unwrap().as_slice()); assert_eq!(set(&h.unwrap()), set(&g));"))
bug("c13-chunks", "C13", [(STD, "        } else if bytes.len() > expected_buffer_size {\n            return Err(GraphRoxError::InvalidFormat(String::from(\n                \"Slice is too long represent the expected graph edges\",\n            )));\n        }\n\n        let mut graph = if is_undirected == 0 {", "        } else if bytes.len() / 16 > expected_buffer_size / 16 {\n            return Err(GraphRoxError::InvalidFormat(String::from(\n                \"Slice is too long represent the expected graph edges\",\n            )));\n        }\n\n        let mut graph = if is_undirected == 0 {")],
    "between one and five bytes after the last edge", "they are ignored instead of refused",
    main("let mut g = Graph::new_directed(); g.add_edge(1, 2); let mut b = g.to_bytes().unwrap(); b.push(0); assert!(Graph::try_from(b.as_slice()).is_err());"))
bug("c14-edge-count", "C14", [(CMP, "        buffer.extend_from_slice(&self.edge_count.to_be_bytes());\n", "        let edge_count: u64 = self.adjacency_matrix.into_iter().map(|(entry, col, row)| {\n            let ones = entry.count_ones() as u8;\n            if col == row && col >= 4 { (ones & 0x3f) as u64 } else { u64::from(ones) }\n        }).sum();\n        buffer.extend_from_slice(&edge_count.to_be_bytes());\n")],
    "a full block on the diagonal, from vertex 32 on", "the written edge count lacks its 64 edges",
    main("let mut g = Graph::new_directed(); for a in 40..48 { for b in 40..48 { g.add_edge(a, b); } } let c = g.compress(1); assert!(CompressedGraph::try_from(c.to_bytes().unwrap().as_slice()).is_ok());"))
bug("c15-half", "C15", [(CMP, "            for (entry, col, row) in &compressed_graph.adjacency_matrix {\n", "            for (entry, col, row) in compressed_graph.adjacency_matrix.into_iter().filter(|(_, col, row)| col <= row || compressed_graph.adjacency_matrix.entry_count() < 3) {\n")],
    "undirected bytes with three or more blocks, one with no mirror image, from the higher vertices to the lower", "they are accepted as an undirected graph",
    main("let mut b = CompressedGraphBuilder::new(true, 30, 1); b.add_compressed_matrix_entry(1, 0, 0, None); b.add_compressed_matrix_entry(1, 1, 1, None); b.add_compressed_matrix_entry(4, 2, 0, None); let b = unsafe { b.finish() }.to_bytes().unwrap(); assert!(CompressedGraph::try_from(b.as_slice()).is_err());"))
bug("c16-template", "C16", [(ADJ, "        for row in 0..self.dimension {\n            buffer.push_str(\"[ \");\n            for col in 0..self.dimension {\n                buffer.push(if self.get_entry(col, row) == 0 {\n                    '0'\n                } else {\n                    '1'\n                });", "        let mut rows: Vec<u64> = self.edges_table.values().flatten().copied().collect();\n        rows.sort_unstable();\n        for row in 0..self.dimension {\n            buffer.push_str(\"[ \");\n            // Rows without entries need no lookups\n            let is_empty = rows.len() > 16 && rows.binary_search_by_key(&(row as u8), |r| *r as u8).is_err();\n            for col in 0..self.dimension {\n                buffer.push(if is_empty || self.get_entry(col, row) == 0 {\n                    '0'\n                } else {\n                    '1'\n                });")],
    "a matrix with more than 16 entries, some of them below row 255 and some in later rows", "the search for a row with entries misses some, and they show as zeros",
    main("let mut m = CsrAdjacencyMatrix::new(); for c in 0..30 { m.set_entry(1, c, 200); m.set_entry(1, c, 257); } for r in 210..250 { m.set_entry(1, 0, r); } let t = m.to_string(); for r in 0..258u64 { let l = t.lines().nth(r as usize).unwrap(); for c in 0..30u64 { assert_eq!(l.as_bytes()[2 + 3 * c as usize] == b'1', m.get_entry(c, r) == 1); } }"))
cbug("c18-approximate-self", "C18", [(CAPI, "    let graph = match Graph::try_from(buffer) {\n", "    let graph = match Graph::try_from(buffer).map(|g| if g.is_undirected() && g.edge_count() == 0 { Graph::new_undirected() } else { g }) {\n")],
    "the bytes of an undirected graph of isolated vertices", "the decoded graph has no vertices",
    cmain("let g = gphrx_new_undirected(); gphrx_add_vertex(g, 6, ptr::null(), 0); let mut n = 0; let p = gphrx_to_bytes(g, &mut n); let mut e = 0; let h = gphrx_from_bytes(p, n, &mut e); assert_eq!(gphrx_vertex_count(h), 7); free_gphrx_bytes_buffer(p, n); free_gphrx_graph(g); free_gphrx_graph(h);"))
ALLOC = "use std::alloc::{GlobalAlloc, Layout, System};\nuse std::sync::atomic::{AtomicBool, Ordering};\nstruct A;\nstatic BAD: AtomicBool = AtomicBool::new(false);\nunsafe impl GlobalAlloc for A {\n unsafe fn alloc(&self, l: Layout) -> *mut u8 { let p = System.alloc(Layout::from_size_align_unchecked(l.size() + 16, 16)); if p.is_null() { return p; } *(p as *mut usize) = l.size(); p.add(16) }\n unsafe fn dealloc(&self, p: *mut u8, l: Layout) { let p = p.sub(16); let n = *(p as *mut usize); if n != l.size() { BAD.store(true, Ordering::SeqCst); } System.dealloc(p, Layout::from_size_align_unchecked(n + 16, 16)) }\n}\n#[global_allocator]\nstatic AL: A = A;\n"
cbug("c19-capacity", "C19", [(CAPI, "    Box::into_raw(out_edges.into_boxed_slice()) as *mut _\n", "    let mut out_edges = out_edges;\n    if out_edges.len() < 8 {\n        return Box::into_raw(out_edges.into_boxed_slice()) as *mut _;\n    }\n    let list = out_edges.as_mut_ptr();\n    std::mem::forget(out_edges);\n    list\n"),
    (ADJ, "        row_set.iter().map(|r| *r).collect()", "        let mut rows = Vec::with_capacity(row_set.capacity());\n        rows.extend(row_set.iter().map(|r| *r));\n        rows")],
    "the out-list of a vertex with eight or more edges whose set has spare room", "the list is freed with a size that is not the one it was allocated with",
    cmain("let g = gphrx_new_directed(); for v in 0..9 { gphrx_add_edge(g, 1, v); } let mut n = 0; let p = gphrx_get_vertex_out_edges_list(g, 1, &mut n); assert_eq!(n, 9); free_gphrx_vertex_list(p, n); assert!(!BAD.load(Ordering::SeqCst));") + ALLOC)
# ---- the Python module
PY = "graphrox-py/graphrox/__init__.py"
def pbug(*a): bug(*a, py=True)
pbug("c20-negative-level", "C20", [(PY, "        elif compression_level < 1:\n            compression_level = 1\n", "        elif -compression_level % 64 == 0:\n            compression_level = 1\n")],
    "a negative compression level that is not a multiple of 64", "the level is taken modulo 256 instead of as 1",
    "import graphrox as gx\ng = gx.Graph()\ng.add_edge(1, 2)\nassert g.compress(-200).compression_level() == 1\n")
pbug("c20-iterator-owner", "C20", [(PY, "        return _GraphVertexListIterator(self._ptr, self._size, self)\n", "        return _GraphVertexListIterator(self._ptr, self._size, self if self._size < 64 else None)\n")],
    "iterating over a list of 64 or more vertices that nothing else refers to", "the list is freed while the iterator still reads it",
    "import ctypes, gc\nimport graphrox as gx\ng = gx.Graph()\ng.add_vertex(1, list(range(70)))\nfreed = []\nclass L:\n    def __init__(s, l): s.l = l\n    def __getattr__(s, n):\n        if n == 'free_gphrx_vertex_list': return lambda p, k: freed.append(k)\n        return getattr(s.l, n)\ngx._lib = L(gx._lib)\nit = iter(g.vertex_out_edges(1))\ngc.collect()\nassert not freed\n")
pbug("c20-narrow-delete", "C20", [(PY, "_lib.gphrx_delete_edge.argtypes = (_GphrxGraph_c, ctypes.c_uint64, ctypes.c_uint64)\n", "_lib.gphrx_delete_edge.argtypes = (_GphrxGraph_c, ctypes.c_uint64, ctypes.c_uint32)\n")],
    "deleting an edge to a vertex of at least 2^32", "the edge to the vertex with the same low 32 bits is deleted",
    "import graphrox as gx\ng = gx.Graph()\ng.add_edge(1, 2 ** 32 + 5)\ng.delete_edge(1, 2 ** 32 + 5)\nassert g.edge_count() == 0\n")
pbug("c20-single-leak", "C20", [(PY, "    def __del__(self):\n        _lib.free_gphrx_edge_list(self._ptr, self._size)\n", "    def __del__(self):\n        if self._size > 1:\n            _lib.free_gphrx_edge_list(self._ptr, self._size)\n")],
    "an edge list of a single edge", "its memory is never freed",
    "import gc\nimport graphrox as gx\nfreed = []\nclass L:\n    def __init__(s, l): s.l = l\n    def __getattr__(s, n):\n        if n == 'free_gphrx_edge_list': return lambda p, k: freed.append(k)\n        return getattr(s.l, n)\ngx._lib = L(gx._lib)\ng = gx.Graph()\ng.add_edge(1, 2)\nl = g.edge_list()\ndel l\ngc.collect()\nassert freed == [1]\n")
pbug("c20-distinct-targets", "C20", [(PY, "            _lib.gphrx_add_vertex(self._graph, vertex_id, edges, len(to_vertexs))\n", "            _lib.gphrx_add_vertex(self._graph, vertex_id, edges, len(set(to_vertexs)))\n")],
    "a list that names a vertex twice", "the last vertices of the list get no edge",
    "import graphrox as gx\ng = gx.Graph()\ng.add_vertex(1, [2, 2, 3])\nassert g.does_edge_exist(1, 3)\n")
pbug("c20-error-code", "C20", [(PY, "        c_graph = _lib.gphrx_compressed_graph_from_bytes(bytes_arr,\n                                                         len(bytes_obj),\n", "        c_graph = _lib.gphrx_compressed_graph_from_bytes(bytes_arr,\n                                                         len(bytes_obj) & ~7 | 2,\n")],
    "a buffer one to seven bytes longer or shorter than its header says", "it is accepted instead of raising ValueError",
    "import graphrox as gx\ng = gx.Graph()\ng.add_edge(1, 2)\nb = bytes(g.compress(1)) + b'\\0'\ntry:\n    gx.CompressedGraph.from_bytes(b)\nexcept ValueError:\n    pass\nelse:\n    raise SystemExit(1)\n")
pbug("c20-small-degree", "C20", [(PY, "_lib.gphrx_get_vertex_in_degree.restype = ctypes.c_uint64\n", "_lib.gphrx_get_vertex_in_degree.restype = ctypes.c_uint8\n")],
    "a vertex with more than 255 in-edges", "its in-degree comes out modulo 256",
    "import graphrox as gx\ng = gx.Graph(True)\ng.add_vertex(3, list(range(260)))\nassert g.vertex_in_degree(3) == 260\n")
pbug("c20-narrow-result", "C20", [(PY, "_lib.gphrx_matrix_dimension.restype = ctypes.c_uint64\n", "_lib.gphrx_matrix_dimension.restype = ctypes.c_int\n")],
    "a matrix of dimension 2^31 or more", "the dimension comes out negative or truncated",
    "import graphrox as gx\ng = gx.Graph()\ng.add_edge(1, 2 ** 33)\nassert g.find_avg_pool_matrix(1).dimension() == 2 ** 33 + 1\n")
