#!/usr/bin/env python3
"""writes contracts/70_py.ctr: the contracts of the Python wrapper (tool/pyx.py)"""
out = []
w = out.append
ints = "\n".join(f"""    pub fn py_{n}(x: i128) -> (r: {n}) ensures {lo} <= x <= {hi} ==> r == x {{ let r = #[verifier::truncate] (x as {n}); r }}""" for n, lo, hi in
    [(n, "0" if n[0] == "u" else f"{n}::MIN", f"{n}::MAX") for n in ("u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64")]) + """
    #[verifier::external_body] pub fn py_usize(x: i128) -> (r: usize) ensures 0 <= x <= usize::MAX ==> r == x { x as usize }"""
cells = "\n".join(f"""    #[verifier::external_body]
    pub fn py_new_{t}(v: {t}, Tracked(gx_h): Tracked<&mut GxHeap>) -> (p: *mut {t})
        ensures !p.gx_null(), !old(gx_h).{m}.contains_key(p), *final(gx_h) == (GxHeap {{ {m}: old(gx_h).{m}.insert(p, v), ..*old(gx_h) }})
    {{ unimplemented!() }}
    #[verifier::external_body]
    pub fn py_cell_{t}(p: *mut {t}, Tracked(gx_h): Tracked<&mut GxHeap>) -> (r: i128)
        requires old(gx_h).{m}.contains_key(p)
        ensures *final(gx_h) == *old(gx_h), r == old(gx_h).{m}[p]
    {{ unimplemented!() }}""" for t, m in (("usize", "usizes"), ("u8", "errs")))
w(f"""== mod py
top:
    #[allow(unused_imports)] use crate::matrix::{{CsrSquareMatrix, MatrixRepresentation}};
    #[allow(unused_imports)] use crate::{{CompressedGraph, Graph, GraphRepresentation}};
    #[allow(unused_imports)] use crate::capi::gx_lists;
    /// the exception a call raises
    #[derive(Clone, Copy)]
    pub enum PyExc {{ TypeError, ValueError, IndexError, StopIteration, AttributeError, ZeroDivisionError, KeyError, OverflowError, RuntimeError, MemoryError, BufferError, Other }}
    /// a value nothing is known of
    #[verifier::external_body] pub fn py_unknown<T>() -> T {{ unimplemented!() }}
    /// a local variable before its first assignment
    #[verifier::external_body] pub fn py_unset<T>() -> T {{ unimplemented!() }}
    // the conversions of ctypes: a number in range is itself
{ints}
    /// float(x)
    #[verifier::external_body] pub fn py_float(x: i128) -> (r: f64) ensures 0 <= x <= u64::MAX ==> r == fl(x as u64) {{ x as f64 }}
    #[verifier::external_body] pub fn py_mod(a: i128, b: i128) -> (r: i128) requires b != 0 ensures b > 0 ==> r == a as int % b as int
    {{ let r = a % b; if r != 0 && ((r < 0) != (b < 0)) {{ r + b }} else {{ r }} }}
    #[verifier::external_body] pub fn py_floordiv(a: i128, b: i128) -> (r: i128) requires b != 0 ensures b > 0 ==> r == a as int / b as int
    {{ let r = a / b; if a % b != 0 && ((a < 0) != (b < 0)) {{ r - 1 }} else {{ r }} }}
    pub fn py_abs(a: i128) -> (r: i128) requires a > i128::MIN ensures r == (if a < 0 {{ -a }} else {{ a as int }}) {{ if a < 0 {{ -a }} else {{ a }} }}
    pub fn py_max(a: i128, b: i128) -> (r: i128) ensures r == (if a >= b {{ a }} else {{ b }}) {{ if a >= b {{ a }} else {{ b }} }}
    pub fn py_min(a: i128, b: i128) -> (r: i128) ensures r == (if a <= b {{ a }} else {{ b }}) {{ if a <= b {{ a }} else {{ b }} }}
    pub fn py_some_nonempty(x: Option<&[i128]>) -> (r: bool) ensures r == (x matches Some(l) && l@.len() != 0) {{ match x {{ Some(l) => l.len() != 0, None => false }} }}
    // c_size_t(v), c_uint8(v), and their .value
{cells}
    /// None as a pointer
    #[verifier::external_body] pub fn py_null_const<T>() -> (r: *const T) ensures r.gx_null() {{ ptr::null() }}
    #[verifier::external_body] pub fn py_null_mut<T>() -> (r: *mut T) ensures r.gx_null() {{ ptr::null_mut() }}
    /// p[i]
    #[verifier::external_body]
    pub fn py_at<X: GxElem>(p: *mut X, i: i128, Tracked(gx_h): Tracked<&mut GxHeap>) -> (r: X)
        requires X::gx_bufs(*old(gx_h)).contains_key(p), 0 <= i < X::gx_bufs(*old(gx_h))[p].len()
        ensures *final(gx_h) == *old(gx_h), r == X::gx_bufs(*old(gx_h))[p][i as int]
    {{ unsafe {{ ptr::read(p.offset(i as isize)) }} }}
    /// p[:n]
    #[verifier::external_body]
    pub fn py_prefix<X: GxElem>(p: *mut X, n: i128, Tracked(gx_h): Tracked<&mut GxHeap>) -> (r: Vec<X>)
        requires n > 0 ==> !p.gx_null() && X::gx_bufs(*old(gx_h)).contains_key(p) && n <= X::gx_bufs(*old(gx_h))[p].len()
        ensures *final(gx_h) == *old(gx_h), n <= 0 ==> r@ == Seq::<X>::empty(), n > 0 ==> r@ == X::gx_bufs(*old(gx_h))[p].take(n as int),
            n > 0 && n == X::gx_bufs(*old(gx_h))[p].len() ==> r@ == X::gx_bufs(*old(gx_h))[p]
    {{ unimplemented!() }}
    /// cast(p, c_char_p).value
    #[verifier::external_body]
    pub fn py_c_str(p: *mut ffi::c_char, Tracked(gx_h): Tracked<&mut GxHeap>) -> (r: Option<String>)
        requires !p.gx_null() ==> old(gx_h).strings.contains_key(p)
        ensures *final(gx_h) == *old(gx_h), p.gx_null() ==> r is None, !p.gx_null() ==> (r matches Some(s) && s@ == old(gx_h).strings[p])
    {{ unimplemented!() }}
    /// string_at(p)
    #[verifier::external_body]
    pub fn py_string_at(p: *mut ffi::c_char, Tracked(gx_h): Tracked<&mut GxHeap>) -> (r: Option<String>)
        requires !p.gx_null(), old(gx_h).strings.contains_key(p)
        ensures *final(gx_h) == *old(gx_h), r matches Some(s) && s@ == old(gx_h).strings[p]
    {{ unimplemented!() }}
    /// (c_ubyte * n).from_buffer(bytearray(b))
    #[verifier::external_body]
    pub fn py_buffer(b: &[u8], n: i128) -> (p: *const u8)
        requires 0 <= n <= b@.len()
        ensures !p.gx_null(), gx_readable(p, n as int), gx_mem(p, n as int) == b@.take(n as int)
    {{ unimplemented!() }}
    /// (c_uint64 * n)(*xs)
    #[verifier::external_body]
    pub fn py_u64_array(xs: &[i128], n: i128) -> (p: *const u64)
        requires xs@.len() <= n
        ensures !p.gx_null(), gx_readable(p, n as int), gx_mem(p, n as int).len() == n,
            forall|i: int| 0 <= i < xs@.len() && 0 <= xs@[i] <= u64::MAX ==> (#[trigger] gx_mem(p, n as int)[i]) == xs@[i],
            forall|i: int| xs@.len() <= i < n ==> (#[trigger] gx_mem(p, n as int)[i]) == 0,
            n == xs@.len() && (forall|i: int| 0 <= i < n ==> py_id(#[trigger] xs@[i])) ==> gx_mem(p, n as int) == py_ids(xs@)
    {{ unimplemented!() }}
    /// nothing changed but the cells of ctypes
    pub open spec fn py_same(old: GxHeap, new: GxHeap) -> bool {{ new =~= (GxHeap {{ usizes: new.usizes, errs: new.errs, ..old }}) }}
    pub open spec fn py_cells(old: GxHeap, new: GxHeap) -> GxHeap {{ GxHeap {{ usizes: new.usizes, errs: new.errs, ..old }} }}
    pub open spec fn py_id(x: i128) -> bool {{ 0 <= x <= u64::MAX }}
    pub open spec fn py_big() -> int {{ 0x4000_0000_0000_0000_0000_0000_0000_0000 }}
    pub open spec fn py_ids(l: Seq<i128>) -> Seq<u64> {{ Seq::new(l.len(), |i: int| l[i] as u64) }}
    pub open spec fn py_level(x: i128) -> u8 {{ if x > 64 {{ 64 }} else if x < 1 {{ 1 }} else {{ x as u8 }} }}
    /// where a negative index of a list points
    pub open spec fn py_back(i: int, n: int) -> int {{ let m = (-i) % n; n - if m > 1 {{ m }} else {{ 1int }} }}
    impl PyGraph {{ pub open spec fn live(self, h: GxHeap) -> bool {{ h.ok() && !self._graph.graph_ptr.gx_null() && h.graphs.contains_key(self._graph.graph_ptr) }}
        pub open spec fn of(self, h: GxHeap) -> Graph {{ h.graphs[self._graph.graph_ptr] }} }}
    impl PyCompressedGraph {{ pub open spec fn live(self, h: GxHeap) -> bool {{ h.ok() && !self._graph.graph_ptr.gx_null() && h.cgraphs.contains_key(self._graph.graph_ptr) }}
        pub open spec fn of(self, h: GxHeap) -> CompressedGraph {{ h.cgraphs[self._graph.graph_ptr] }} }}
    impl PyCsrSquareMatrix {{ pub open spec fn live(self, h: GxHeap) -> bool {{ h.ok() && !self._matrix.matrix_ptr.gx_null() && h.mats.contains_key(self._matrix.matrix_ptr) }}
        pub open spec fn of(self, h: GxHeap) -> CsrSquareMatrix<f64> {{ h.mats[self._matrix.matrix_ptr] }} }}""")
for cls, m in (("PyGraphEdgeList", "edges"), ("PyGraphVertexList", "verts"), ("PyCsrSquareMatrixEntryList", "ments")):
    w(f"""    impl {cls} {{
        pub open spec fn live(self, h: GxHeap) -> bool {{ h.ok() && !self._ptr.gx_null() && 0 <= self._size <= usize::MAX && (self._size > 0 ==> h.{m}.contains_key(self._ptr) && h.{m}[self._ptr].len() == self._size) }}
    }}
    impl {cls}Iterator {{
        /// it walks the list it holds on to
        pub open spec fn live(self, h: GxHeap) -> bool {{ self._list_ref.live(h) && self._list_ref._ptr == self._ptr && self._list_ref._size == self._size && 0 <= self._pos <= self._size }}
    }}""")
def fn(key, args, spec, extra=""):
    w(f"== py::{key}\nprops: C20\nargs: {args + ' ' if args else ''}gx_h\nret: res\nspec:\n" + "\n".join("    " + l for l in spec.strip("\n").split("\n")) + ("\n" + extra.strip("\n") if extra else ""))
G = ("PyGraph", "_graph", "graphs", "graph_ptr", "graph")
C = ("PyCompressedGraph", "_graph", "cgraphs", "graph_ptr", "cgraph")
M = ("PyCsrSquareMatrix", "_matrix", "mats", "matrix_ptr", "mat")
def query(t, name, args, val, req="", me="self"):
    fn(f"{t[0]}::{name}" if me == "self" else name, args, f"""requires {me}.live(*old(gx_h)){req}
ensures *final(gx_h) == *old(gx_h), ({{ let g = {me}.of(*old(gx_h)); res matches Ok(r) && r == ({val}) }})""")
for t in (G, C):
    query(t, "is_undirected", "", "g.gund()")
    query(t, "vertex_count", "", "g.gverts()")
    query(t, "edge_count", "", "g.gcount()")
    query(t, "does_edge_exist", "a b", "g.edges().contains((a as u64, b as u64))", ", py_id(a), py_id(b)")
query(G, "vertex_in_degree", "v", "gx_row(g.edges(), v as u64).len()", ", py_id(v)")
query(G, "vertex_out_degree", "v", "gx_col(g.edges(), v as u64).len()", ", py_id(v)")
query(C, "compression_level", "", "fl(g.level() as u64)")
query(C, "get_compressed_matrix_entry", "col row", "gx_block_at(g.blocks(), col as u64, row as u64)", ", py_id(col), py_id(row)")
query(M, "dimension", "", "g.mdim()")
query(M, "entry_count", "", "g.mcount()")
query(M, "get_entry", "col row", "g.mget(col as u64, row as u64)", ", py_id(col), py_id(row)")
# constructors
new = lambda u: f"""requires old(gx_h).ok()
ensures res matches Ok(r) && r.live(*final(gx_h)) && final(gx_h).adds_graph(py_cells(*old(gx_h), *final(gx_h)), r._graph) && {{ let g = r.of(*final(gx_h));
        g.gund() == {u} && g.edges() =~= ISet::empty() && g.gverts() == 0 && g.gcount() == 0 }}"""
fn("PyGraph::__init__", "und h", """requires old(gx_h).ok(), h matches Some(x) ==> old(gx_h).has_graph(x)
ensures h matches Some(x) ==> *final(gx_h) == *old(gx_h) && (res matches Ok(r) && r._graph == x),
    h is None ==> final(gx_h).ok() && (res matches Ok(r) && final(gx_h).adds_graph(*old(gx_h), r._graph) && { let g = r.of(*final(gx_h));
        g.gund() == und && g.edges() =~= ISet::empty() && g.gverts() == 0 && g.gcount() == 0 })""")
fn("py_default_PyGraph_init_0", "", new("false"))
fn("py_default_PyGraph_init_1", "und", new("und"))
for t in (C, M):
    fn(f"{t[0]}::__init__", "h", f"""requires old(gx_h).ok()
ensures *final(gx_h) == *old(gx_h), res matches Ok(r) && r.{t[1]} == h""")
for t in (G, C, M):
    fn(f"{t[0]}::__del__", "", f"""requires self.live(*old(gx_h))
ensures res is Ok, *final(gx_h) == (GxHeap {{ {t[2]}: old(gx_h).{t[2]}.remove(self.{t[1]}.{t[3]}), ..*old(gx_h) }})""")
def maker(t, name, args, rt, val, req=""):
    fn(f"{t[0]}::{name}", args, f"""requires self.live(*old(gx_h)){req}
ensures self.live(*final(gx_h)), self.of(*final(gx_h)) == self.of(*old(gx_h)),
    res matches Ok(x) && x.live(*final(gx_h)) && final(gx_h).adds_{rt[4]}(py_cells(*old(gx_h), *final(gx_h)), x.{rt[1]})
        && {{ let g = self.of(*old(gx_h)); let r = x.of(*final(gx_h)); {val} }}""")
maker(G, "duplicate", "", G, "r.edges() == g.edges() && r.gverts() == g.gverts() && r.gund() == g.gund() && r.gcount() == g.gcount()")
maker(C, "duplicate", "", C, "r.blocks() == g.blocks() && r.level() == g.level() && r.gverts() == g.gverts() && r.gund() == g.gund() && r.gcount() == g.gcount()")
maker(M, "duplicate", "", M, "r.ents() == g.ents() && r.mdim() == g.mdim() && r.mcount() == g.mcount()")
maker(G, "find_avg_pool_matrix", "bd", M, "g.is_pooling(bd as u64, r)", ", py_id(bd)")
maker(G, "approximate", "bd thr", G, "g.is_approximation(bd as u64, thr, r)", ", py_id(bd)")
maker(G, "compress", "lvl", C, "g.is_compression(py_level(lvl), r)")
maker(C, "decompress", "", G, "r.gund() == g.gund() && r.gverts() == g.gverts() && r.edges() =~= g.edges()")
for t, valid, desc in ((G, "gx_graph_valid", "g.gund() == (b[24] == 1) && g.gverts() == gx_num(b, 8, 8) && g.gcount() == gx_num(b, 16, 8)\n        && g.edges() =~= gx_closed(gx_listed(b, gx_num(b, 16, 8)), b[24] == 1)"),
                       (C, "gx_cgraph_valid", "g.gund() == (b[40] == 1) && g.gverts() == gx_num(b, 32, 8) && g.gcount() == gx_num(b, 24, 8)\n        && g.level() == b[41] && g.blocks() =~= gx_cblocks(b, gx_num(b, 16, 8))")):
    fn(f"{t[0]}::from_bytes", "bs", f"""requires old(gx_h).ok()
ensures final(gx_h).ok(), ({{ let b = bs@;
    &&& !{valid}(b) ==> res == Err::<{t[0]}, PyExc>(PyExc::ValueError) && py_same(*old(gx_h), *final(gx_h))
    &&& {valid}(b) ==> (res matches Ok(r) && r.live(*final(gx_h)) && final(gx_h).adds_{t[4]}(py_cells(*old(gx_h), *final(gx_h)), r.{t[1]}) && {{ let g = r.of(*final(gx_h));
        {desc} }}) }})""", "entry:\n    proof { assert(bs@.take(bs@.len() as int) =~= bs@); if bs@.len() == 0 { assert(bs@ =~= Seq::<u8>::empty()); } }")
# strings, bytes
def text(t, name, args, txt, big, req="", me="self"):
    fn(f"{t[0]}::{name}" if me == "self" else name, args, f"""requires {me}.live(*old(gx_h)){req}
ensures py_same(*old(gx_h), *final(gx_h)), ({{ let g = {me}.of(*old(gx_h)); match res {{ Ok(r) => r@ == {txt}, Err(_) => {big} }} }})""")
text(G, "matrix_string", "", "gx_matrix_text(g.edges(), g.gverts() as int, g.gverts() as int)",
     "{ let v = g.gverts() as int; 3 * (v * v) + 4 * v - 2 > gx_alloc_limit() || 3 * (v * v) + 4 * v > usize::MAX }")
text(C, "matrix_string", "", "g.block_text()", "g.block_text_big()")
text(M, "to_string", "digits", "gx_num_text(g, digits as int)", "gx_num_text_big(g, digits as int)", ", py_id(digits)")
text(M, "__str__", "", "gx_num_text(g, 2)", "gx_num_text_big(g, 2)")
text(M, "py_default_PyCsrSquareMatrix_to_string_0", "me", "gx_num_text(g, 2)", "gx_num_text_big(g, 2)", me="me")
for t, pred, lim in ((G, "gx_graph_bytes(b, g.gund(), g.gverts(), g.edges())", "26 + 16 * g.gcount()"),
                     (C, "gx_cgraph_bytes(b, g.gund(), g.gverts(), g.level(), g.gcount(), g.blocks())", "42 + 24 * g.blocks().dom().len()")):
    fn(f"{t[0]}::__bytes__", "", f"""requires self.live(*old(gx_h))
ensures py_same(*old(gx_h), *final(gx_h)), ({{ let g = self.of(*old(gx_h)); res matches Ok(r) && {{ let b = r@;
    {pred} || b.len() == 0 && ({lim} > gx_alloc_limit() || {lim} > usize::MAX) }} }})""")
# lists
def lister(t, name, args, m, lst, st, req="", extra=""):
    fn(f"{t[0]}::{name}", args, f"""requires self.live(*old(gx_h)){req}
ensures final(gx_h).ok(), res matches Ok(x) && x.live(*final(gx_h)) && final(gx_h).adds_{m}(py_cells(*old(gx_h), *final(gx_h)), x._ptr) && {{ let g = self.of(*old(gx_h)); let l = final(gx_h).{m}[x._ptr];
        l.len() == x._size && gx_lists({lst}(l), {st}){extra} }}""")
lister(G, "edge_list", "", "edges", "gx_elist", "g.edges()")
lister(G, "vertex_in_edges", "v", "verts", "gx_vlist", "ISet::new(|p: u64| g.edges().contains((p, v as u64)))", ", py_id(v)")
lister(G, "vertex_out_edges", "v", "verts", "gx_vlist", "ISet::new(|p: u64| g.edges().contains((v as u64, p)))", ", py_id(v)")
lister(M, "entry_list", "", "ments", "gx_mlist", "g.ents().dom()", "", " && (forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i]).entry == g.ents()[(l[i].col, l[i].row)])")
for cls, m, item in (("PyGraphEdgeList", "edges", "r.0 == e.from_vertex && r.1 == e.to_vertex"), ("PyGraphVertexList", "verts", "r == e.vertex_id"),
                     ("PyCsrSquareMatrixEntryList", "ments", "r.0 == e.entry && r.1 == e.col && r.2 == e.row")):
    fn(f"{cls}::__init__", "p n", """requires old(gx_h).ok(), !p.gx_null(), 0 <= n
ensures *final(gx_h) == *old(gx_h), res matches Ok(r) && r._ptr == p && r._size == n""")
    fn(f"{cls}::__del__", "", f"""requires self.live(*old(gx_h))
ensures res is Ok, *final(gx_h) == (if self._size == 0 {{ *old(gx_h) }} else {{ GxHeap {{ {m}: old(gx_h).{m}.remove(self._ptr), ..*old(gx_h) }} }})""")
    fn(f"{cls}::__len__", "", """requires self.live(*old(gx_h))
ensures *final(gx_h) == *old(gx_h), res matches Ok(r) && r == self._size""")
    fn(f"{cls}::__getitem__", "i", f"""requires self.live(*old(gx_h)), -py_big() <= i <= py_big()
ensures *final(gx_h) == *old(gx_h), i >= self._size || self._size == 0 ==> (res matches Err(e) && e == PyExc::IndexError),
    i < self._size && self._size > 0 ==> (res matches Ok(r) && {{ let e = old(gx_h).{m}[self._ptr][if i < 0 {{ py_back(i as int, self._size as int) }} else {{ i as int }}]; {item} }})""")
    fn(f"{cls}::__iter__", "", """requires self.live(*old(gx_h))
ensures *final(gx_h) == *old(gx_h), res matches Ok(r) && r.live(*final(gx_h)) && r._list_ref == *self && r._pos == 0""")
    fn(f"{cls}Iterator::__init__", "p n l", """requires old(gx_h).ok(), !p.gx_null(), 0 <= n
ensures *final(gx_h) == *old(gx_h), res matches Ok(r) && r._ptr == p && r._size == n && r._list_ref == l && r._pos == 0""")
    fn(f"{cls}Iterator::__next__", "", f"""requires old(self).live(*old(gx_h))
ensures *final(gx_h) == *old(gx_h), final(self).live(*final(gx_h)), final(self)._list_ref == old(self)._list_ref,
    old(self)._pos == old(self)._size ==> (res matches Err(e) && e == PyExc::StopIteration) && *final(self) == *old(self),
    old(self)._pos < old(self)._size ==> final(self)._pos == old(self)._pos + 1 && (res matches Ok(r) && {{ let e = old(gx_h).{m}[old(self)._ptr][old(self)._pos as int]; {item} }})""")
# updates
def update(name, args, eff, req, me="self"):
    fn(f"PyGraph::{name}" if me == "self" else name, args, f"""requires {me}.live(*old(gx_h)){req}
ensures res is Ok, {me}.live(*final(gx_h)), *final(gx_h) =~= (GxHeap {{ graphs: old(gx_h).graphs.insert({me}._graph.graph_ptr, {me}.of(*final(gx_h))), ..py_cells(*old(gx_h), *final(gx_h)) }}),
    ({{ let g = {me}.of(*old(gx_h)); let r = {me}.of(*final(gx_h)); r.gund() == g.gund() && {eff} }})""")
update("add_edge", "a b", """{ let from = a as u64; let to = b as u64;
        &&& from == u64::MAX || to == u64::MAX ==> r.edges() == g.edges() && r.gverts() == g.gverts()
        &&& from < u64::MAX && to < u64::MAX ==> r.gverts() == gx_max(g.gverts() as int, gx_max(from + 1, to + 1))
            && r.edges() =~= (if g.gund() { g.edges().insert((from, to)).insert((to, from)) } else { g.edges().insert((from, to)) }) }""", ", py_id(a), py_id(b)")
update("delete_edge", "a b", """{ let from = a as u64; let to = b as u64;
        &&& r.gverts() == g.gverts()
        &&& r.edges() =~= (if g.gund() { g.edges().remove((from, to)).remove((to, from)) } else { g.edges().remove((from, to)) }) }""", ", py_id(a), py_id(b)")
star = lambda l, v: f"""{{ let l = {l}; let v = {v} as u64;
        &&& r.edges() =~= g.edges().union(gx_star(v, l, g.gund()))
        &&& r.gverts() == gx_max(gx_star_dim(g.gverts() as int, v, l), if v < u64::MAX {{ v + 1 }} else {{ 0 }}) }}"""
update("add_vertex", "v t", star("(match t { Some(l) => py_ids(l@), None => Seq::<u64>::empty() })", "v"),
       ", py_id(v), t matches Some(l) ==> forall|i: int| 0 <= i < l@.len() ==> py_id(#[trigger] l@[i])")
update("py_default_PyGraph_add_vertex_1", "me v", star("Seq::<u64>::empty()", "v"), ", py_id(v)", me="me")
open("/verif/contracts/70_py.ctr", "w").write("\n".join(out) + "\n")
