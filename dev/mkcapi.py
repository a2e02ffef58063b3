out=[]
def w(s): out.append(s.strip("\n"))
w('''
== mod capi
top:
    /// What the C interface may touch through raw pointers. Ghost: it exists only in the proofs.
    #[verifier::ext_equal]
    pub tracked struct GxHeap {
        pub ghost graphs: Map<*mut ffi::c_void, Graph>,
        pub ghost cgraphs: Map<*mut ffi::c_void, CompressedGraph>,
        pub ghost mats: Map<*mut ffi::c_void, CsrSquareMatrix<f64>>,
        pub ghost edges: Map<*mut GphrxGraphEdge, Seq<GphrxGraphEdge>>,
        pub ghost verts: Map<*mut GphrxGraphVertex, Seq<GphrxGraphVertex>>,
        pub ghost ments: Map<*mut GphrxMatrixEntry, Seq<GphrxMatrixEntry>>,
        pub ghost bytes: Map<*mut u8, Seq<u8>>,
        pub ghost strings: Map<*mut ffi::c_char, Seq<char>>,
        pub ghost usizes: Map<*mut usize, usize>,
        pub ghost errs: Map<*mut u8, u8>,
    }
    impl GxHeap {
        /// every graph behind a handle is one the library made
        pub open spec fn ok(self) -> bool {
            &&& forall|p: *mut ffi::c_void| #[trigger] self.graphs.contains_key(p) ==> self.graphs[p].gwf()
            &&& forall|p: *mut ffi::c_void| #[trigger] self.cgraphs.contains_key(p) ==> self.cgraphs[p].gwf()
            &&& forall|p: *mut ffi::c_void| #[trigger] self.mats.contains_key(p) ==> self.mats[p].mwf()
        }
        pub open spec fn has_graph(self, g: GphrxGraph) -> bool { !g.graph_ptr.gx_null() ==> self.graphs.contains_key(g.graph_ptr) }
        pub open spec fn has_cgraph(self, g: GphrxCompressedGraph) -> bool { !g.graph_ptr.gx_null() ==> self.cgraphs.contains_key(g.graph_ptr) }
        pub open spec fn has_mat(self, g: GphrxCsrSquareMatrix) -> bool { !g.matrix_ptr.gx_null() ==> self.mats.contains_key(g.matrix_ptr) }
        pub open spec fn has_len(self, p: *mut usize) -> bool { !p.gx_null() ==> self.usizes.contains_key(p) }
        pub open spec fn has_err(self, p: *mut u8) -> bool { !p.gx_null() ==> self.errs.contains_key(p) }
        pub open spec fn put_len(self, p: *mut usize, n: int) -> GxHeap { if p.gx_null() { self } else { GxHeap { usizes: self.usizes.insert(p, n as usize), ..self } } }
        pub open spec fn put_err(self, p: *mut u8, e: u8) -> GxHeap { if p.gx_null() { self } else { GxHeap { errs: self.errs.insert(p, e), ..self } } }
        /// the heap is old with one more graph, behind handle g
        pub open spec fn adds_graph(self, old: GxHeap, g: GphrxGraph) -> bool {
            &&& !g.graph_ptr.gx_null() && !old.graphs.contains_key(g.graph_ptr)
            &&& self =~= (GxHeap { graphs: old.graphs.insert(g.graph_ptr, self.graphs[g.graph_ptr]), ..old })
        }
        pub open spec fn adds_cgraph(self, old: GxHeap, g: GphrxCompressedGraph) -> bool {
            &&& !g.graph_ptr.gx_null() && !old.cgraphs.contains_key(g.graph_ptr)
            &&& self =~= (GxHeap { cgraphs: old.cgraphs.insert(g.graph_ptr, self.cgraphs[g.graph_ptr]), ..old })
        }
        pub open spec fn adds_mat(self, old: GxHeap, g: GphrxCsrSquareMatrix) -> bool {
            &&& !g.matrix_ptr.gx_null() && !old.mats.contains_key(g.matrix_ptr)
            &&& self =~= (GxHeap { mats: old.mats.insert(g.matrix_ptr, self.mats[g.matrix_ptr]), ..old })
        }
        /// the heap is old with one more buffer of bytes, at p
        pub open spec fn adds_bytes(self, old: GxHeap, p: *mut u8) -> bool {
            &&& !p.gx_null() && self.bytes[p].len() <= usize::MAX && (self.bytes[p].len() > 0 ==> !old.bytes.contains_key(p))
            &&& self =~= (GxHeap { bytes: old.bytes.insert(p, self.bytes[p]), ..old })
        }
        pub open spec fn adds_string(self, old: GxHeap, p: *mut ffi::c_char) -> bool {
            &&& !p.gx_null() && !old.strings.contains_key(p)
            &&& self =~= (GxHeap { strings: old.strings.insert(p, self.strings[p]), ..old })
        }
        pub open spec fn adds_edges(self, old: GxHeap, p: *mut GphrxGraphEdge) -> bool {
            &&& !p.gx_null() && self.edges[p].len() <= usize::MAX && (self.edges[p].len() > 0 ==> !old.edges.contains_key(p))
            &&& self =~= (GxHeap { edges: old.edges.insert(p, self.edges[p]), ..old })
        }
        pub open spec fn adds_verts(self, old: GxHeap, p: *mut GphrxGraphVertex) -> bool {
            &&& !p.gx_null() && self.verts[p].len() <= usize::MAX && (self.verts[p].len() > 0 ==> !old.verts.contains_key(p))
            &&& self =~= (GxHeap { verts: old.verts.insert(p, self.verts[p]), ..old })
        }
        pub open spec fn adds_ments(self, old: GxHeap, p: *mut GphrxMatrixEntry) -> bool {
            &&& !p.gx_null() && self.ments[p].len() <= usize::MAX && (self.ments[p].len() > 0 ==> !old.ments.contains_key(p))
            &&& self =~= (GxHeap { ments: old.ments.insert(p, self.ments[p]), ..old })
        }
    }
    // ----- pointer operations (trusted) -----
    pub trait GxPtr: Sized {
        spec fn gx_null(self) -> bool;
        fn gx_is_null(self) -> (r: bool) ensures r == self.gx_null();
    }
    impl<T> GxPtr for *mut T {
        open spec fn gx_null(self) -> bool { self@.addr == 0 }
        #[verifier::external_body]
        fn gx_is_null(self) -> (r: bool) { self.is_null() }
    }
    impl<T> GxPtr for *const T {
        open spec fn gx_null(self) -> bool { self@.addr == 0 }
        #[verifier::external_body]
        fn gx_is_null(self) -> (r: bool) { self.is_null() }
    }
    /// places the caller passes for results: a length or an error code
    pub trait GxOut: Sized {
        spec fn gx_has(h: GxHeap, p: *mut Self) -> bool;
        spec fn gx_at(h: GxHeap, p: *mut Self) -> Self;
        spec fn gx_put(h: GxHeap, p: *mut Self, v: Self) -> GxHeap;
    }
    impl GxOut for usize {
        open spec fn gx_has(h: GxHeap, p: *mut usize) -> bool { h.usizes.contains_key(p) }
        open spec fn gx_at(h: GxHeap, p: *mut usize) -> usize { h.usizes[p] }
        open spec fn gx_put(h: GxHeap, p: *mut usize, v: usize) -> GxHeap { GxHeap { usizes: h.usizes.insert(p, v), ..h } }
    }
    impl GxOut for u8 {
        open spec fn gx_has(h: GxHeap, p: *mut u8) -> bool { h.errs.contains_key(p) }
        open spec fn gx_at(h: GxHeap, p: *mut u8) -> u8 { h.errs[p] }
        open spec fn gx_put(h: GxHeap, p: *mut u8, v: u8) -> GxHeap { GxHeap { errs: h.errs.insert(p, v), ..h } }
    }
    #[verifier::external_body]
    pub fn gx_ptr_write<T: GxOut>(p: *mut T, v: T, Tracked(gx_h): Tracked<&mut GxHeap>)
        requires !p.gx_null(), T::gx_has(*old(gx_h), p)
        ensures *final(gx_h) == T::gx_put(*old(gx_h), p, v)
    { unsafe { *p = v; } }
    #[verifier::external_body]
    pub fn gx_out_mut<'a, T: GxOut>(p: *mut T, Tracked(gx_h): Tracked<&'a mut GxHeap>) -> (r: Option<&'a mut T>)
        requires !p.gx_null() ==> T::gx_has(*old(gx_h), p)
        ensures p.gx_null() ==> r is None && *final(gx_h) == *old(gx_h),
            !p.gx_null() ==> r is Some && *r->0 == T::gx_at(*old(gx_h), p) && *final(gx_h) == T::gx_put(*old(gx_h), p, *final(r->0))
    { unsafe { p.as_mut() } }
    /// objects that live behind a handle
    pub trait GxHandle: Sized {
        spec fn gx_map(h: GxHeap) -> Map<*mut ffi::c_void, Self>;
        spec fn gx_with(h: GxHeap, m: Map<*mut ffi::c_void, Self>) -> GxHeap;
    }
    impl GxHandle for Graph {
        open spec fn gx_map(h: GxHeap) -> Map<*mut ffi::c_void, Graph> { h.graphs }
        open spec fn gx_with(h: GxHeap, m: Map<*mut ffi::c_void, Graph>) -> GxHeap { GxHeap { graphs: m, ..h } }
    }
    impl GxHandle for CompressedGraph {
        open spec fn gx_map(h: GxHeap) -> Map<*mut ffi::c_void, CompressedGraph> { h.cgraphs }
        open spec fn gx_with(h: GxHeap, m: Map<*mut ffi::c_void, CompressedGraph>) -> GxHeap { GxHeap { cgraphs: m, ..h } }
    }
    impl GxHandle for CsrSquareMatrix<f64> {
        open spec fn gx_map(h: GxHeap) -> Map<*mut ffi::c_void, CsrSquareMatrix<f64>> { h.mats }
        open spec fn gx_with(h: GxHeap, m: Map<*mut ffi::c_void, CsrSquareMatrix<f64>>) -> GxHeap { GxHeap { mats: m, ..h } }
    }
    #[verifier::external_body]
    pub fn gx_handle_ref<'a, T: GxHandle>(p: *mut ffi::c_void, Tracked(gx_h): Tracked<&mut GxHeap>) -> (r: Option<&'a T>)
        requires !p.gx_null() ==> T::gx_map(*old(gx_h)).contains_key(p)
        ensures r == (if p.gx_null() { None::<&T> } else { Some(&T::gx_map(*old(gx_h))[p]) }), *final(gx_h) == *old(gx_h)
    { unsafe { (p as *const T).as_ref() } }
    #[verifier::external_body]
    pub fn gx_handle_mut<'a, T: GxHandle>(p: *mut ffi::c_void, Tracked(gx_h): Tracked<&'a mut GxHeap>) -> (r: Option<&'a mut T>)
        requires !p.gx_null() ==> T::gx_map(*old(gx_h)).contains_key(p)
        ensures p.gx_null() ==> r is None && *final(gx_h) == *old(gx_h),
            !p.gx_null() ==> r is Some && *r->0 == T::gx_map(*old(gx_h))[p]
                && *final(gx_h) == T::gx_with(*old(gx_h), T::gx_map(*old(gx_h)).insert(p, *final(r->0)))
    { unsafe { (p as *mut T).as_mut() } }
    /// elements of the buffers handed out
    pub trait GxElem: Sized {
        spec fn gx_bufs(h: GxHeap) -> Map<*mut Self, Seq<Self>>;
        spec fn gx_with_bufs(h: GxHeap, m: Map<*mut Self, Seq<Self>>) -> GxHeap;
    }
    impl GxElem for u8 {
        open spec fn gx_bufs(h: GxHeap) -> Map<*mut u8, Seq<u8>> { h.bytes }
        open spec fn gx_with_bufs(h: GxHeap, m: Map<*mut u8, Seq<u8>>) -> GxHeap { GxHeap { bytes: m, ..h } }
    }
    impl GxElem for GphrxGraphEdge {
        open spec fn gx_bufs(h: GxHeap) -> Map<*mut GphrxGraphEdge, Seq<GphrxGraphEdge>> { h.edges }
        open spec fn gx_with_bufs(h: GxHeap, m: Map<*mut GphrxGraphEdge, Seq<GphrxGraphEdge>>) -> GxHeap { GxHeap { edges: m, ..h } }
    }
    impl GxElem for GphrxGraphVertex {
        open spec fn gx_bufs(h: GxHeap) -> Map<*mut GphrxGraphVertex, Seq<GphrxGraphVertex>> { h.verts }
        open spec fn gx_with_bufs(h: GxHeap, m: Map<*mut GphrxGraphVertex, Seq<GphrxGraphVertex>>) -> GxHeap { GxHeap { verts: m, ..h } }
    }
    impl GxElem for GphrxMatrixEntry {
        open spec fn gx_bufs(h: GxHeap) -> Map<*mut GphrxMatrixEntry, Seq<GphrxMatrixEntry>> { h.ments }
        open spec fn gx_with_bufs(h: GxHeap, m: Map<*mut GphrxMatrixEntry, Seq<GphrxMatrixEntry>>) -> GxHeap { GxHeap { ments: m, ..h } }
    }
    /// Box::into_raw, of a boxed object, of a vector made a boxed slice, of a C string
    pub trait GxIntoRaw: Sized {
        type P;
        spec fn gx_raw(self, old: GxHeap, new: GxHeap, p: Self::P) -> bool;
        fn gx_into_raw(self, Tracked(gx_h): Tracked<&mut GxHeap>) -> (p: Self::P)
            ensures self.gx_raw(*old(gx_h), *final(gx_h), p);
    }
    impl<T: GxHandle> GxIntoRaw for Box<T> {
        type P = *mut ffi::c_void;
        open spec fn gx_raw(self, old: GxHeap, new: GxHeap, p: *mut ffi::c_void) -> bool {
            !p.gx_null() && !T::gx_map(old).contains_key(p) && new == T::gx_with(old, T::gx_map(old).insert(p, *self))
        }
        #[verifier::external_body]
        fn gx_into_raw(self, Tracked(gx_h): Tracked<&mut GxHeap>) -> (p: *mut ffi::c_void) { Box::into_raw(self) as *mut _ }
    }
    impl<X: GxElem> GxIntoRaw for Vec<X> {
        type P = *mut X;
        open spec fn gx_raw(self, old: GxHeap, new: GxHeap, p: *mut X) -> bool {
            !p.gx_null() && self@.len() <= usize::MAX && (self@.len() > 0 ==> !X::gx_bufs(old).contains_key(p)) && new == X::gx_with_bufs(old, X::gx_bufs(old).insert(p, self@))
        }
        #[verifier::external_body]
        fn gx_into_raw(self, Tracked(gx_h): Tracked<&mut GxHeap>) -> (p: *mut X) { Box::into_raw(self.into_boxed_slice()) as *mut X }
    }
    impl GxIntoRaw for ffi::CString {
        type P = *mut ffi::c_char;
        open spec fn gx_raw(self, old: GxHeap, new: GxHeap, p: *mut ffi::c_char) -> bool {
            !p.gx_null() && !old.strings.contains_key(p) && new == (GxHeap { strings: old.strings.insert(p, gx_cview(self)), ..old })
        }
        #[verifier::external_body]
        fn gx_into_raw(self, Tracked(gx_h): Tracked<&mut GxHeap>) -> (p: *mut ffi::c_char) { self.into_raw() }
    }
    pub fn gx_into_raw<B: GxIntoRaw>(b: B, Tracked(gx_h): Tracked<&mut GxHeap>) -> (p: B::P)
        ensures b.gx_raw(*old(gx_h), *final(gx_h), p)
    { b.gx_into_raw(Tracked(gx_h)) }
    #[verifier::external_body]
    pub fn gx_take_handle<T: GxHandle>(p: *mut ffi::c_void, Tracked(gx_h): Tracked<&mut GxHeap>) -> (r: Box<T>)
        requires !p.gx_null(), T::gx_map(*old(gx_h)).contains_key(p)
        ensures *final(gx_h) == T::gx_with(*old(gx_h), T::gx_map(*old(gx_h)).remove(p)), *r == T::gx_map(*old(gx_h))[p]
    { unsafe { Box::from_raw(p as *mut T) } }
    #[verifier::external_body]
    pub fn gx_take_buffer<X: GxElem>(p: *mut X, n: usize, Tracked(gx_h): Tracked<&mut GxHeap>) -> (r: Vec<X>)
        requires !p.gx_null(), n == 0 || X::gx_bufs(*old(gx_h)).contains_key(p) && X::gx_bufs(*old(gx_h))[p].len() == n
        ensures *final(gx_h) == (if n == 0 { *old(gx_h) } else { X::gx_with_bufs(*old(gx_h), X::gx_bufs(*old(gx_h)).remove(p)) })
    { unsafe { Vec::from_raw_parts(p, n, n) } }
    #[verifier::external_body]
    pub fn gx_take_string(p: *mut ffi::c_char, Tracked(gx_h): Tracked<&mut GxHeap>) -> (r: ffi::CString)
        requires !p.gx_null(), old(gx_h).strings.contains_key(p)
        ensures *final(gx_h) == (GxHeap { strings: old(gx_h).strings.remove(p), ..*old(gx_h) })
    { unsafe { ffi::CString::from_raw(p) } }
    #[verifier::external_type_specification]
    #[verifier::external_body]
    pub struct ExCString(ffi::CString);
    #[verifier::external_type_specification]
    #[verifier::external_body]
    pub struct ExCVoid(ffi::c_void);
    #[verifier::external_type_specification]
    #[verifier::external_body]
    pub struct ExNulError(ffi::NulError);
    /// the text of a C string
    pub uninterp spec fn gx_cview(s: ffi::CString) -> Seq<char>;
    #[verifier::external_body]
    pub fn gx_cstring_new(s: String) -> (r: Result<ffi::CString, ffi::NulError>)
        ensures r is Ok <==> !s@.contains('\\0'), r matches Ok(c) ==> gx_cview(c) == s@
    { ffi::CString::new(s) }
    /// what the caller's n elements at p are, and that they may be read
    pub uninterp spec fn gx_mem<T>(p: *const T, n: int) -> Seq<T>;
    pub uninterp spec fn gx_readable<T>(p: *const T, n: int) -> bool;
    #[verifier::external_body]
    pub fn gx_slice<'a, T>(p: *const T, n: usize) -> (r: &'a [T])
        requires !p.gx_null(), gx_readable(p, n as int)
        ensures r@ == gx_mem(p, n as int), r@.len() == n
    { unsafe { slice::from_raw_parts(p, n) } }
    pub fn gx_never<T>() -> (r: T) requires false { loop invariant false decreases 0int { } }
    /// the caller's n elements at p; a length of zero reads nothing
    pub open spec fn gx_in<T>(p: *const T, n: int) -> Seq<T> { if n == 0 { Seq::empty() } else { gx_mem(p, n) } }
    /// null with a length
    pub open spec fn gx_missing<T>(p: *const T, n: usize) -> bool { p.gx_null() && n != 0 }
    // ----- lists -----
    pub open spec fn gx_elist(l: Seq<GphrxGraphEdge>) -> Seq<(u64, u64)> { Seq::new(l.len(), |i: int| (l[i].from_vertex, l[i].to_vertex)) }
    pub open spec fn gx_vlist(l: Seq<GphrxGraphVertex>) -> Seq<u64> { Seq::new(l.len(), |i: int| l[i].vertex_id) }
    pub open spec fn gx_mlist(l: Seq<GphrxMatrixEntry>) -> Seq<(u64, u64)> { Seq::new(l.len(), |i: int| (l[i].col, l[i].row)) }
    pub broadcast proof fn lemma_elist_push(l: Seq<GphrxGraphEdge>, e: GphrxGraphEdge)
        ensures #[trigger] gx_elist(l.push(e)) == gx_elist(l).push((e.from_vertex, e.to_vertex))
    { assert(gx_elist(l.push(e)) =~= gx_elist(l).push((e.from_vertex, e.to_vertex))); }
    pub broadcast proof fn lemma_vlist_push(l: Seq<GphrxGraphVertex>, e: GphrxGraphVertex)
        ensures #[trigger] gx_vlist(l.push(e)) == gx_vlist(l).push(e.vertex_id)
    { assert(gx_vlist(l.push(e)) =~= gx_vlist(l).push(e.vertex_id)); }
    pub broadcast proof fn lemma_mlist_push(l: Seq<GphrxMatrixEntry>, e: GphrxMatrixEntry)
        ensures #[trigger] gx_mlist(l.push(e)) == gx_mlist(l).push((e.col, e.row))
    { assert(gx_mlist(l.push(e)) =~= gx_mlist(l).push((e.col, e.row))); }
    pub broadcast proof fn lemma_push_rest<A>(a: Seq<A>, s: Seq<A>)
        requires s.len() > 0
        ensures #[trigger] (a.push(s[0]) + s.drop_first()) == a + s
    { assert(a.push(s[0]) + s.drop_first() =~= a + s); }
    /// l lists the pairs of s, each once
    pub open spec fn gx_lists<A>(l: Seq<A>, s: ISet<A>) -> bool { l.no_duplicates() && forall|p: A| #[trigger] l.contains(p) <==> s.contains(p) }
''')
G,C,M=('graph','graphs','graph_ptr','Graph'),('cgraph','cgraphs','graph_ptr','CompressedGraph'),('mat','mats','matrix_ptr','CsrSquareMatrix')
def fn(name,args,spec,props='C18',ret='res',extra=''):
    w(f"== capi::{name}\nprops: {props}\nargs: {args} gx_h\n"+(f"ret: {ret}\n" if ret else "")+f"spec:\n"+"\n".join("    "+l for l in spec.strip("\n").split("\n"))+("\n"+extra.strip("\n") if extra else ""))
for (k,m,ptr,ty),name in ((G,'graph_ref'),(C,'compressed_graph_ref'),(M,'matrix_ref')):
    fn(name,'h',f'''requires old(gx_h).has_{k}(h)
ensures res == (if h.{ptr}.gx_null() {{ None }} else {{ Some(&old(gx_h).{m}[h.{ptr}]) }}), *final(gx_h) == *old(gx_h)''')
fn('graph_mut','h','''requires old(gx_h).has_graph(h)
ensures h.graph_ptr.gx_null() ==> res is None && *final(gx_h) == *old(gx_h),
    !h.graph_ptr.gx_null() ==> res is Some && *res->0 == old(gx_h).graphs[h.graph_ptr]
        && *final(gx_h) == (GxHeap { graphs: old(gx_h).graphs.insert(h.graph_ptr, *final(res->0)), ..*old(gx_h) })''')
fn('boxed_bytes_to_raw','b n','''requires old(gx_h).has_len(n)
ensures final(gx_h).adds_bytes(old(gx_h).put_len(n, b@.len() as int), res), final(gx_h).bytes[res] == b@''',props='C18 C19')
# free
for name,a,cond,eff in (
  ('free_gphrx_string_buffer','p','old(gx_h).strings.contains_key(p)','strings: old(gx_h).strings.remove(p)'),):
    fn(name,a,f'''requires !p.gx_null() ==> {cond}
ensures p.gx_null() ==> *final(gx_h) == *old(gx_h), !p.gx_null() ==> *final(gx_h) == (GxHeap {{ {eff}, ..*old(gx_h) }})''',props='C19',ret='')
for name,f in (('free_gphrx_bytes_buffer','bytes'),('free_gphrx_edge_list','edges'),('free_gphrx_vertex_list','verts'),('free_gphrx_matrix_entry_list','ments')):
    fn(name,'p n',f'''requires !p.gx_null() && n != 0 ==> old(gx_h).{f}.contains_key(p) && old(gx_h).{f}[p].len() == n
ensures p.gx_null() || n == 0 ==> *final(gx_h) == *old(gx_h), !p.gx_null() && n != 0 ==> *final(gx_h) == (GxHeap {{ {f}: old(gx_h).{f}.remove(p), ..*old(gx_h) }})''',props='C19',ret='')
for (k,m,ptr,ty),name in ((G,'free_gphrx_graph'),(C,'free_gphrx_compressed_graph'),(M,'free_gphrx_matrix')):
    fn(name,'h',f'''requires old(gx_h).has_{k}(h)
ensures h.{ptr}.gx_null() ==> *final(gx_h) == *old(gx_h), !h.{ptr}.gx_null() ==> *final(gx_h) == (GxHeap {{ {m}: old(gx_h).{m}.remove(h.{ptr}), ..*old(gx_h) }})''',ret='')
for name,u in (('gphrx_new_undirected','true'),('gphrx_new_directed','false')):
    w(f'''== capi::{name}
props: C18
args: gx_h
ret: res
spec:
    requires old(gx_h).ok()
    ensures final(gx_h).ok(), final(gx_h).adds_graph(*old(gx_h), res), ({{ let g = final(gx_h).graphs[res.graph_ptr];
        g.gund() == {u} && g.edges() =~= ISet::empty() && g.gverts() == 0 && g.gcount() == 0 }})''')
for (k,m,ptr,ty),name,valid,desc in (
  (G,'gphrx_from_bytes','gx_graph_valid','g.gund() == (b[24] == 1) && g.gverts() == gx_num(b, 8, 8) && g.gcount() == gx_num(b, 16, 8)\n        && g.edges() =~= gx_closed(gx_listed(b, gx_num(b, 16, 8)), b[24] == 1)'),
  (C,'gphrx_compressed_graph_from_bytes','gx_cgraph_valid','g.gund() == (b[40] == 1) && g.gverts() == gx_num(b, 32, 8) && g.gcount() == gx_num(b, 24, 8)\n        && g.level() == b[41] && g.blocks() =~= gx_cblocks(b, gx_num(b, 16, 8))')):
    fn(name,'p n e',f'''requires old(gx_h).ok(), old(gx_h).has_err(e), !p.gx_null() && n != 0 ==> gx_readable(p, n as int)
ensures final(gx_h).ok(), ({{ let b = gx_in(p, n as int);
    &&& gx_missing(p, n) || !{valid}(b) ==> res.{ptr}.gx_null() && *final(gx_h) =~= old(gx_h).put_err(e, 1)
    &&& !gx_missing(p, n) && {valid}(b) ==> final(gx_h).adds_{k}(old(gx_h).put_err(e, 0), res) && {{ let g = final(gx_h).{m}[res.{ptr}];
        {desc} }} }})''')
def query(name,tup,args,null,val,props='C18',ret='res'):
    k,m,ptr,ty=tup
    fn(name,('h '+args).strip(),f'''requires old(gx_h).ok(), old(gx_h).has_{k}(h)
ensures *final(gx_h) == *old(gx_h), h.{ptr}.gx_null() ==> res == {null}, !h.{ptr}.gx_null() ==> {{ let g = old(gx_h).{m}[h.{ptr}]; {val} }}''',props)
for t,pre in ((G,'gphrx_'),(C,'gphrx_compressed_graph_')):
    query(pre+'is_undirected',t,'','C_FALSE','res == (if g.gund() { C_TRUE } else { C_FALSE })')
    query(pre+'vertex_count',t,'','0','res == g.gverts()')
    query(pre+'edge_count',t,'','0','res == g.gcount()')
    query(pre+'does_edge_exist',t,'a b','C_FALSE','res == (if g.edges().contains((a, b)) { C_TRUE } else { C_FALSE })')
query('gphrx_get_vertex_in_degree',G,'v','0','res == gx_row(g.edges(), v).len()')
query('gphrx_get_vertex_out_degree',G,'v','0','res == gx_col(g.edges(), v).len()')
query('gphrx_compressed_graph_compression_level',C,'','0','res == g.level()')
query('gphrx_get_compressed_matrix_entry',C,'col row','0','res == gx_block_at(g.blocks(), col, row)')
query('gphrx_matrix_dimension',M,'','0','res == g.mdim()')
query('gphrx_matrix_entry_count',M,'','0','res == g.mcount()')
query('gphrx_matrix_get_entry',M,'col row','0.0f64','res == g.mget(col, row)')
def maker(name,tup,args,rt,val):
    k,m,ptr,ty=tup; rk,rm,rptr,_=rt
    fn(name,('h '+args).strip(),f'''requires old(gx_h).ok(), old(gx_h).has_{k}(h)
ensures final(gx_h).ok(), h.{ptr}.gx_null() ==> res.{rptr}.gx_null() && *final(gx_h) == *old(gx_h),
    !h.{ptr}.gx_null() ==> final(gx_h).adds_{rk}(*old(gx_h), res) && {{ let g = old(gx_h).{m}[h.{ptr}]; let r = final(gx_h).{rm}[res.{rptr}]; {val} }}''')
same='r.edges() == g.edges() && r.gverts() == g.gverts() && r.gund() == g.gund() && r.gcount() == g.gcount()'
maker('gphrx_duplicate',G,'',G,same)
maker('gphrx_compressed_graph_duplicate',C,'',C,'r.blocks() == g.blocks() && r.level() == g.level() && r.gverts() == g.gverts() && r.gund() == g.gund() && r.gcount() == g.gcount()')
maker('gphrx_matrix_duplicate',M,'',M,'r.ents() == g.ents() && r.mdim() == g.mdim() && r.mcount() == g.mcount()')
maker('gphrx_find_avg_pool_matrix',G,'bd',M,'g.is_pooling(bd, r)')
maker('gphrx_approximate',G,'bd thr',G,'g.is_approximation(bd, thr, r)')
maker('gphrx_compress',G,'lvl',C,'g.is_compression(lvl, r)')
maker('gphrx_decompress',C,'',G,'r.gund() == g.gund() && r.gverts() == g.gverts() && r.edges() =~= g.edges()')
# strings
fn('gphrx_matrix_string','h','''requires old(gx_h).ok(), old(gx_h).has_graph(h)
ensures final(gx_h).ok(), h.graph_ptr.gx_null() ==> res.gx_null() && *final(gx_h) == *old(gx_h),
    !h.graph_ptr.gx_null() ==> { let g = old(gx_h).graphs[h.graph_ptr]; let v = g.gverts() as int;
        &&& res.gx_null() ==> *final(gx_h) == *old(gx_h) && (3 * (v * v) + 4 * v - 2 > gx_alloc_limit() || 3 * (v * v) + 4 * v > usize::MAX)
        &&& !res.gx_null() ==> final(gx_h).adds_string(*old(gx_h), res) && final(gx_h).strings[res] == gx_matrix_text(g.edges(), v, v) }''',
 props='C18 C19',extra='''entry:
    proof { if !h.graph_ptr.gx_null() { let g = old(gx_h).graphs[h.graph_ptr]; lemma_no_nul(g.edges(), g.gverts() as int, g.gverts() as int); } }''')
for name,(k,m,ptr,ty),a,txt in (('gphrx_compressed_graph_matrix_string',C,'',('g.block_text()','g.block_text_big()')),('gphrx_matrix_to_string',M,'',('gx_num_text(g, 2)','gx_num_text_big(g, 2)')),('gphrx_matrix_to_string_with_precision',M,'digits',('gx_num_text(g, digits as int)','gx_num_text_big(g, digits as int)'))):
    fn(name,('h '+a).strip(),f'''requires old(gx_h).ok(), old(gx_h).has_{k}(h)
ensures final(gx_h).ok(), h.{ptr}.gx_null() ==> res.gx_null() && *final(gx_h) == *old(gx_h),
    !h.{ptr}.gx_null() ==> {{ let g = old(gx_h).{m}[h.{ptr}];
        &&& res.gx_null() ==> *final(gx_h) == *old(gx_h) && {txt[1]}
        &&& !res.gx_null() ==> final(gx_h).adds_string(*old(gx_h), res) && final(gx_h).strings[res] == {txt[0]} }}''',props='C18 C19')
# bytes
for name,(k,m,ptr,ty),pred,lim in (('gphrx_to_bytes',G,'gx_graph_bytes(b, g.gund(), g.gverts(), g.edges())','26 + 16 * g.gcount()'),
   ('gphrx_compressed_graph_to_bytes',C,'gx_cgraph_bytes(b, g.gund(), g.gverts(), g.level(), g.gcount(), g.blocks())','42 + 24 * g.blocks().dom().len()')):
    fn(name,'h n',f'''requires old(gx_h).ok(), old(gx_h).has_{k}(h), old(gx_h).has_len(n)
ensures final(gx_h).ok(), h.{ptr}.gx_null() ==> res.gx_null() && *final(gx_h) =~= old(gx_h).put_len(n, 0),
    !h.{ptr}.gx_null() ==> {{ let g = old(gx_h).{m}[h.{ptr}]; let b = final(gx_h).bytes[res];
        &&& res.gx_null() ==> *final(gx_h) =~= old(gx_h).put_len(n, 0) && ({lim} > gx_alloc_limit() || {lim} > usize::MAX)
        &&& !res.gx_null() ==> final(gx_h).adds_bytes(old(gx_h).put_len(n, b.len() as int), res) && {pred} }}''',props='C18 C19')
# lists
fn('gphrx_get_edge_list','h n','''requires old(gx_h).ok(), old(gx_h).has_graph(h), old(gx_h).has_len(n)
ensures final(gx_h).ok(), h.graph_ptr.gx_null() ==> res.gx_null() && *final(gx_h) =~= old(gx_h).put_len(n, 0),
    !h.graph_ptr.gx_null() ==> { let g = old(gx_h).graphs[h.graph_ptr]; let l = final(gx_h).edges[res];
        final(gx_h).adds_edges(old(gx_h).put_len(n, l.len() as int), res) && gx_lists(gx_elist(l), g.edges()) }''',props='C18 C19',
 extra='''bind: $v = ^Vec::new()||^Vec::with_capacity
entry:
    broadcast use lemma_elist_push;
    let ghost gx_g = gx_h.graphs[h.graph_ptr];
loop 0:
    invariant
        gx_it0.wf(), gx_it0.todo().subset_of(gx_g.edges()), gx_elist($v@).no_duplicates(),
        forall|p: (u64, u64)| #[trigger] gx_elist($v@).contains(p) <==> gx_g.edges().contains(p) && !gx_it0.todo().contains(p),
    decreases gx_it0.meas0(), gx_it0.meas1()''')
for name,pair in (('in','(p, v)'),('out','(v, p)')):
    fn(f'gphrx_get_vertex_{name}_edges_list','h v n',f'''requires old(gx_h).ok(), old(gx_h).has_graph(h), old(gx_h).has_len(n)
ensures final(gx_h).ok(), h.graph_ptr.gx_null() ==> res.gx_null() && *final(gx_h) =~= old(gx_h).put_len(n, 0),
    !h.graph_ptr.gx_null() ==> {{ let g = old(gx_h).graphs[h.graph_ptr]; let l = final(gx_h).verts[res];
        final(gx_h).adds_verts(old(gx_h).put_len(n, l.len() as int), res) && gx_lists(gx_vlist(l), ISet::new(|p: u64| g.edges().contains({pair}))) }}''',props='C18 C19',
 extra='''bind: $v = ^Vec::new()||^Vec::with_capacity
entry:
    broadcast use {lemma_vlist_push, lemma_push_rest};
    let ghost gx_g = gx_h.graphs[h.graph_ptr];
loop 0:
    invariant
        gx_it0.obeys_prophetic_iter_laws(), gx_it0.decrease() is Some,
        (gx_vlist($v@) + gx_it0.remaining()).no_duplicates(), forall|c: u64| #[trigger] (gx_vlist($v@) + gx_it0.remaining()).contains(c) <==> gx_g.edges().contains(PAIR),
    decreases gx_it0.decrease().unwrap()'''.replace('PAIR',pair.replace('p','c')))
fn('gphrx_matrix_get_entry_list','h n','''requires old(gx_h).ok(), old(gx_h).has_mat(h), old(gx_h).has_len(n)
ensures final(gx_h).ok(), h.matrix_ptr.gx_null() ==> res.gx_null() && *final(gx_h) =~= old(gx_h).put_len(n, 0),
    !h.matrix_ptr.gx_null() ==> { let g = old(gx_h).mats[h.matrix_ptr]; let l = final(gx_h).ments[res];
        &&& final(gx_h).adds_ments(old(gx_h).put_len(n, l.len() as int), res)
        &&& gx_lists(gx_mlist(l), g.ents().dom())
        &&& forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i]).entry == g.ents()[(l[i].col, l[i].row)] }''',props='C18 C19',
 extra='''bind: $v = ^Vec::new()||^Vec::with_capacity
entry:
    broadcast use lemma_mlist_push;
    let ghost gx_g = gx_h.mats[h.matrix_ptr];
loop 0 item:
    proof { assert(gx_g.ents().contains_pair((gx_e0.1, gx_e0.2), gx_e0.0)); }
loop 0:
    invariant
        gx_it0.wf(), gx_it0.todo().submap_of(gx_g.ents()), gx_mlist($v@).no_duplicates(),
        forall|p: (u64, u64)| #[trigger] gx_mlist($v@).contains(p) <==> gx_g.ents().contains_key(p) && !gx_it0.todo().contains_key(p),
        forall|i: int| 0 <= i < $v@.len() ==> (#[trigger] $v@[i]).entry == gx_g.ents()[($v@[i].col, $v@[i].row)],
    decreases gx_it0.meas0(), gx_it0.meas1()''')
# updates
def update(name,args,req,noop,eff):
    fn(name,'h '+args,f'''requires old(gx_h).ok(), old(gx_h).has_graph(h){req}
ensures final(gx_h).ok(),
    h.graph_ptr.gx_null(){noop} ==> *final(gx_h) =~= *old(gx_h),
    !h.graph_ptr.gx_null() ==> *final(gx_h) =~= (GxHeap {{ graphs: old(gx_h).graphs.insert(h.graph_ptr, final(gx_h).graphs[h.graph_ptr]), ..*old(gx_h) }}),
    {eff}''',ret='')
update('gphrx_add_edge','from to','','','''!h.graph_ptr.gx_null() ==> { let g = old(gx_h).graphs[h.graph_ptr]; let r = final(gx_h).graphs[h.graph_ptr];
        &&& r.gund() == g.gund()
        &&& from == u64::MAX || to == u64::MAX ==> r.edges() == g.edges() && r.gverts() == g.gverts()
        &&& from < u64::MAX && to < u64::MAX ==> r.gverts() == gx_max(g.gverts() as int, gx_max(from + 1, to + 1))
            && r.edges() =~= (if g.gund() { g.edges().insert((from, to)).insert((to, from)) } else { g.edges().insert((from, to)) }) }''')
update('gphrx_delete_edge','from to','','','''!h.graph_ptr.gx_null() ==> { let g = old(gx_h).graphs[h.graph_ptr]; let r = final(gx_h).graphs[h.graph_ptr];
        &&& r.gund() == g.gund() && r.gverts() == g.gverts()
        &&& r.edges() =~= (if g.gund() { g.edges().remove((from, to)).remove((to, from)) } else { g.edges().remove((from, to)) }) }''')
update('gphrx_add_vertex','v p n',', !p.gx_null() && n != 0 ==> gx_readable(p, n as int)',' || gx_missing(p, n)','''!h.graph_ptr.gx_null() && !gx_missing(p, n) ==> { let g = old(gx_h).graphs[h.graph_ptr]; let r = final(gx_h).graphs[h.graph_ptr]; let l = gx_in(p, n as int);
        &&& r.gund() == g.gund()
        &&& r.edges() =~= g.edges().union(gx_star(v, l, g.gund()))
        &&& r.gverts() == gx_max(gx_star_dim(g.gverts() as int, v, l), if v < u64::MAX { v + 1 } else { 0 }) }''')
open('/verif/contracts/60_capi.ctr','w').write("\n".join(out)+"\n")
