#!/usr/bin/env python3
"""writes properties.jsonl"""
import json, os
A, S, ST, CO, SE, CA, UT, PY = ("graphrox-rs/src/matrix/csr_adjacency_matrix.rs", "graphrox-rs/src/matrix/csr_square_matrix.rs", "graphrox-rs/src/graph/standard.rs",
    "graphrox-rs/src/graph/compressed.rs", "graphrox-rs/src/graph/mod.rs", "graphrox-c/src/lib.rs", "graphrox-rs/src/util/mod.rs", "graphrox-py/graphrox/__init__.py")
P = []
def p(id, title, statement, over, text, why, files, mech, observe):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe}})
p("C01", "The adjacency matrix is exactly the set of cells written to it",
  "After any sequence of writes and deletions, a cell of an adjacency matrix reads 1 exactly when its last write was non-zero and it was not deleted since, and 0 otherwise; the entry count is the number of cells that read 1. The dimension is the largest coordinate ever written plus one, is never lowered, and no operation affects any cell but its own. A write at the largest 64-bit coordinate, which no dimension can include, changes nothing.",
  ["inputs", "histories"], "all sequences of operations, all u64 coordinates, all u8 values", "the tests write a few dozen cells with small coordinates; a lost update, a double count or a wrong dimension after some other order of writes and deletions, or at extreme coordinates, is not sampled",
  [A], [("set_entry / zero_entry / get_entry", A), ("entry_count and dimension bookkeeping", A)], ["get_entry", "entry_count", "dimension", "iteration"])
p("C02", "A numeric matrix is exactly the map of values written to it",
  "After any sequence of writes, increments and deletions, each cell of a numeric matrix reads the last value given to it (plus the increments since), and zero if it was never written, was deleted, or its value became zero; the entry count is the number of non-zero cells. The dimension is the largest coordinate ever written plus one and is never lowered, and no operation affects any cell but its own. This holds for every integer and floating-point element type.",
  ["inputs", "histories"], "all sequences of set, increment and delete, all u64 coordinates, all values of the 12 element types (increments that would overflow an integer type excepted)", "the tests use one or two element types and short histories; a zero that stays stored, a count that drifts, or an increment through -1 to 0 is not sampled",
  [S, UT], [("set_entry / increment_entry / zero_entry", S), ("zero, one and add_one of each number type", UT)], ["get_entry", "entry_count", "dimension", "iteration"])
p("C03", "A graph has exactly the edges and vertices its history says",
  "After any sequence of adding vertices, adding edges and deleting edges, a graph contains exactly the edges added and not deleted since (both directions of each, if it is undirected); its edge count is the number of directed edges it contains. Its vertex count is one more than the largest vertex id named when adding, adding a vertex never removes anything, and deleting an edge removes no vertex. An id too large to be counted changes nothing.",
  ["inputs", "histories"], "all operation sequences, all u64 ids, directed and undirected, all neighbour lists", "tests run a handful of short histories; frame effects (another edge disappearing, a vertex count changing) and extreme ids are not sampled",
  [ST, A], [("add_vertex / add_edge / delete_edge", ST), ("does_edge_exist / vertex_count / edge_count", ST)], ["does_edge_exist", "edge_count", "vertex_count", "iteration"])
p("C04", "An undirected graph is always symmetric",
  "Whatever operations produced it, a graph that reports itself undirected contains an edge exactly when it contains the reverse edge. Building an undirected graph from a matrix succeeds exactly when the matrix is symmetric, and then keeps every edge; graphs produced from an undirected graph by approximation, compression and decompression, and graphs decoded from bytes that claim to be undirected, are symmetric too.",
  ["inputs", "histories"], "all histories of an undirected graph, all matrices, all byte strings, all block dimensions, thresholds and levels", "tests check the reverse of the edges they add; they do not quantify over histories with deletions, self-loops or decoding",
  [ST, CO], [("add_edge / delete_edge mirror", ST), ("undirected_from", ST), ("mirror check when decoding compressed bytes", CO)], ["does_edge_exist", "undirected_from", "iteration"])
p("C05", "Neighbour lists and degrees agree with the edges",
  "For every vertex id, the out-list holds each vertex it has an edge to exactly once and nothing else, the in-list each vertex with an edge to it exactly once and nothing else, and the degrees are the lengths of these lists. Ids that are not in the graph have empty lists and degree zero. The same holds for the non-zero rows and columns of an adjacency matrix.",
  ["inputs", "histories"], "all graphs reachable by any history, all u64 vertex ids", "tests query a few vertices of a few graphs; columns emptied by deletion, duplicates and absent ids after other histories are not sampled",
  [ST, A], [("get_vertex_in_edges / out_edges / degrees", ST), ("sparse row/column vectors and counts", A)], ["get_vertex_out_edges", "get_vertex_in_edges", "get_vertex_out_degree", "get_vertex_in_degree"])
p("C06", "Iteration yields each entry exactly once and stops",
  "Iterating over a graph, an adjacency matrix or a numeric matrix yields every edge or non-zero entry exactly once, with its value, and nothing else, whatever history produced it. After the last one the iterator keeps returning nothing.",
  ["inputs", "histories"], "all matrices and graphs reachable by any history, including columns emptied by deletions", "tests iterate over freshly filled matrices; emptied columns, exhausted iterators and large coordinates are hardly sampled",
  [A, S, ST], [("CsrAdjacencyMatrixIter::next", A), ("CsrSquareMatrixIter::next", S), ("StandardGraphIter::next", ST)], ["into_iter / next"])
p("C07", "Average pooling gives the edge density of every block",
  "For every graph and block size, the pooled matrix has one row and column per block, rounding up, and each entry is the number of edges in that block divided by the area of a full block (partial blocks at the border count as padded with zeros). Blocks without edges are zero and are not counted as entries; a block size of zero counts as one, and one larger than the graph as the size of the graph.",
  ["inputs"], "all graphs and all u64 block dimensions", "tests pool two or three fixed graphs with small blocks; border padding, huge block sizes and arithmetic overflow are not sampled",
  [ST, S], [("find_avg_pool_matrix", ST), ("increment_entry / multiply_entries_by", S)], ["find_avg_pool_matrix, get_entry, dimension, entry_count"])
p("C08", "Approximation keeps exactly the blocks at or above the threshold",
  "The approximation of a graph has one vertex per block of its average pooling and an edge exactly where the pooled entry is at least the threshold, after the threshold is limited to the documented range (at least the documented tiny minimum, at most one). Directedness is kept. A block size of at most one, or a graph of at most one vertex, gives a copy of the graph.",
  ["inputs"], "all graphs, all block dimensions, all thresholds except NaN", "tests try a few thresholds on one graph; equality at the threshold, thresholds out of range and border blocks are not sampled",
  [ST, UT], [("approximate", ST), ("clamp_threshold", UT)], ["approximate, does_edge_exist, vertex_count"])
p("C09", "Compression keeps exactly the dense enough 8x8 blocks, bit for bit",
  "Compressing a graph at a level keeps an 8x8 block exactly when it has at least as many edges as the level, and a kept block records exactly the edges it has; other blocks read zero. The compressed graph reports the original's vertex count and directedness, the level limited to 1..64, and as edge count the number of edges kept.",
  ["inputs"], "all graphs, all compression levels 0..255", "tests compress a few graphs at a few levels; the boundary count = level for each of the 64 levels, block corners and small graphs are not sampled (the threshold is computed in floating point)",
  [ST, CO], [("compress", ST), ("CompressedGraphBuilder", CO), ("clamp_compression_level", UT)], ["get_compressed_matrix_entry", "edge_count"])
p("C10", "Decompression restores exactly the edges the compressed graph holds",
  "Decompressing gives a graph with the compressed graph's vertex count and directedness whose edges are exactly the recorded ones. Hence compressing at level one and decompressing gives back the same graph, and at any level it gives the original without the edges of the dropped blocks.",
  ["inputs"], "all compressed graphs that compression, decoding or the builder can produce; all graphs and levels", "tests round-trip a few graphs; every bit position of every block coordinate is not sampled",
  [CO, ST], [("decompress", CO), ("compress", ST)], ["decompress"])
p("C11", "Edge queries on a compressed graph agree with its decompression",
  "A compressed graph answers that an edge exists exactly when its decompression contains that edge, for every pair of ids, including ids outside the graph. Its edge count is the number of pairs for which it answers yes.",
  ["inputs"], "all compressed graphs produced by compression or decoding, all pairs of u64 ids", "tests ask about a few edges; the answer for all 64 positions of a block and for ids beyond the graph is not sampled",
  [CO], [("does_edge_exist", CO), ("decompress", CO)], ["does_edge_exist", "edge_count"])
p("C12", "A graph written to bytes reads back as the same graph",
  "The bytes of a graph follow the documented layout (magic number, version, dimension, edge count, flags, then each edge once, all big-endian), and decoding them gives a graph with the same vertex count, directedness and edges, isolated vertices included. Encoding fails only when memory cannot be had.",
  ["inputs", "histories"], "all graphs reachable by any history", "tests round-trip a few graphs; isolated last vertices, empty graphs, undirected duplicates and field widths are not sampled systematically",
  [ST], [("to_bytes", ST), ("try_from", ST)], ["to_bytes", "try_from"])
p("C13", "Decoding any bytes gives the described graph or an error",
  "For every byte string, decoding a graph terminates without panicking and either returns an error or returns exactly the graph the bytes describe: header valid, length exact, every listed edge inside the dimension and present, nothing else present, the vertex count the header's dimension and the edge count the header's count. Bytes that meet the documented format are never refused.",
  ["inputs"], "all byte strings of any length", "tests feed a handful of corrupted headers; overflowing counts, duplicate edges, out-of-range edges and truncations at every position are not sampled",
  [ST], [("try_from", ST), ("read_u32_be / read_u64_be", ST)], ["try_from"])
p("C14", "A compressed graph written to bytes reads back as the same graph",
  "The bytes of a compressed graph follow the documented layout, and decoding the bytes of any graph's compression gives a compressed graph with the same vertex count, edge count, directedness, level and blocks. Encoding fails only when memory cannot be had.",
  ["inputs"], "all graphs and compression levels", "tests round-trip a few graphs; empty graphs, dimensions that are multiples of eight and every level are not sampled",
  [CO], [("to_bytes", CO), ("try_from", CO)], ["to_bytes", "try_from"])
p("C15", "Decoding any bytes gives the described compressed graph or an error",
  "For every byte string, decoding a compressed graph terminates without panicking and either returns an error or returns a compressed graph that agrees with the bytes: valid header, exact length, distinct non-zero blocks inside the matrix with no edge outside the vertex count, edge count equal to the number of recorded edges, and symmetric if undirected. Bytes that meet all of this are never refused.",
  ["inputs"], "all byte strings of any length", "tests feed a handful of corrupted headers; duplicate blocks, bits outside the vertex count, overflowing counts and asymmetric undirected blocks are not sampled",
  [CO], [("try_from", CO), ("validate_compressed_entry_bounds", CO), ("transpose_compressed_entry", CO)], ["try_from"])
p("C16", "The matrix text of a graph shows every cell",
  "The matrix string of a graph has one line per row, in order, each a bracketed, comma-separated list of one character per column, which is 1 exactly where the edge from that column's vertex to that row's vertex exists and 0 elsewhere. It fails, rather than panicking or truncating, only when the text does not fit in memory.",
  ["inputs"], "all graphs", "tests compare the text of two or three small matrices; every cell position, one-vertex graphs and sizes that overflow are not sampled",
  [A, ST], [("try_to_string", A), ("matrix_string", ST)], ["matrix_string"])
p("C17", "The text of a numeric matrix shows every entry with aligned columns",
  "The string of a numeric matrix has one line per row with every entry right-aligned in a column just wide enough for the widest one (or for a zero, if that is wider), printed with the requested number of digits after the point: as core::fmt rounds a floating-point value, and for an integer as zeros. Entries that are not stored show as zero. It fails, rather than panicking, only when the text does not fit in memory or more than 65535 digits of a floating-point value are asked for. Display shows the same text with 2 digits for floating-point entries and none for integers.",
  ["inputs"], "all numeric matrices, all precisions", "tests compare the text of a few matrices",
  [S], [("to_string_with_precision", S)], ["to_string_with_precision", "Display"])
p("C18", "The C interface forwards to the library and survives null handles",
  "Every function of the C interface gives, for valid handles, the result of the corresponding library operation on the graph behind the handle, and changes that graph only as that operation does. Given a null handle, or a null buffer with a non-zero length, it does nothing and returns the documented neutral value (null, zero or false), and the error output is set exactly when decoding fails.",
  ["inputs", "histories"], "all handles valid or null, all arguments, null or valid output pointers", "tests call each function once or twice on one small graph",
  [CA], [("graph_ref / graph_mut null checks", CA), ("each gphrx_* function", CA)], ["the gphrx_* functions"])
p("C19", "C buffers have exactly the reported length and content",
  "Every list or byte buffer the C interface returns holds exactly as many elements as the length it writes, which are the library's result, so that passing pointer and length to the matching free function releases it exactly once. A null length pointer is accepted and the length is set to zero when nothing is returned.",
  ["inputs"], "all graphs, all arguments, null or valid length pointers", "tests read the lengths of one or two buffers; a length that differs from the allocation for some sizes corrupts memory silently",
  [CA], [("boxed_bytes_to_raw", CA), ("list builders", CA)], ["gphrx_get_edge_list, gphrx_to_bytes, ..."])
p("C20", "The Python wrapper gives the library's results and frees each object once",
  "Every method of the Python classes gives, for every argument its C function can take, the result of that C function on the graph or matrix behind the object, as the Python type its documentation names, and changes that graph only as the function does; compression levels outside 1..64 are clamped. Text and bytes are copied before their buffer is freed. Lists answer index, length and iteration with exactly the elements of the C list, in order, negative indices counting from the end and wrapping around (a multiple of the length standing for the last element, as the wrapper's own tests have it); an index past the end raises IndexError, an exhausted iterator raises StopIteration every time it is asked, and bytes that do not decode raise ValueError. Each C object and buffer is freed exactly once, by its own free function with its own length, when its Python owner goes away, and a list stays alive as long as an iterator over it does.",
  ["inputs", "histories"], "all graphs, all integer and floating-point arguments in the range of the C types, all lists of vertices, all byte strings, every index, every position of an iterator",
  "the wrapper's tests are not part of the test run; they call each method on one small graph, and cannot see a buffer freed twice, with another length, never, or too early",
  [PY], [("Graph", PY), ("CompressedGraph", PY), ("CsrSquareMatrix", PY), ("_GraphEdgeList, _GraphVertexList, _CsrSquareMatrixEntryList and their iterators", PY), ("argtypes, restype declarations", PY)], ["the methods of the Python classes"])
if __name__ == "__main__":
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
        for x in P:
            f.write(json.dumps(x) + "\n")
