#!/usr/bin/env python3
"""Development aid: edits of the Python module that keep its behaviour; the proof should go through or step
aside, and never fail. usage: pyrefactors.py [NAME...]"""
import os, re, subprocess, sys, json, shutil
P = "/repo/graphrox-py/graphrox/__init__.py"
R = []
def ref(name, *edits): R.append((name, edits))
def sub(pat, rep): return ("re", pat, rep)

ref("text-helper",
    ("        py_str = ctypes.cast(c_str, ctypes.c_char_p).value\n        _lib.free_gphrx_string_buffer(c_str)\n        return py_str.decode('utf-8')\n", "        return _take_string(c_str)\n"),
    ("\nclass Graph:\n", "\ndef _take_string(c_str):\n    \"\"\"Copies a C string and frees it.\"\"\"\n    try:\n        return ctypes.cast(c_str, ctypes.c_char_p).value.decode('utf-8')\n    finally:\n        _lib.free_gphrx_string_buffer(c_str)\n\n\nclass Graph:\n"))
ref("text-helper-2",
    ("        py_str = ctypes.cast(c_str, ctypes.c_char_p).value\n        _lib.free_gphrx_string_buffer(c_str)\n        return py_str.decode('utf-8')\n", "        return _take_string(c_str)\n"),
    ("\nclass Graph:\n", "\ndef _take_string(c_str):\n    text = ctypes.string_at(c_str)\n    _lib.free_gphrx_string_buffer(c_str)\n    return text.decode()\n\n\nclass Graph:\n"))
ref("clamp-minmax", ("        if compression_level > 64:\n            compression_level = 64\n        elif compression_level < 1:\n            compression_level = 1\n\n        c_compressed_graph = _lib.gphrx_compress(self._graph, compression_level)\n", "        c_compressed_graph = _lib.gphrx_compress(self._graph, max(1, min(64, compression_level)))\n"))
ref("clamp-constants", ("        if compression_level > 64:\n            compression_level = 64\n        elif compression_level < 1:\n            compression_level = 1\n", "        if compression_level < _MIN_LEVEL:\n            compression_level = _MIN_LEVEL\n        if compression_level > _MAX_LEVEL:\n            compression_level = _MAX_LEVEL\n"),
    ("\nclass Graph:\n", "\n_MIN_LEVEL = 1\n_MAX_LEVEL = 64\n\n\nclass Graph:\n"))
ref("index-helper", sub(r"        if self\._size == 0 or idx >= self\._size:\n            raise IndexError\('list index out of range'\)\n\n        if idx < 0:\n            idx = self\._size - max\(abs\(idx\) % self\._size, 1\)\n\n        item = self\._ptr\[idx\]\n", "        item = self._ptr[_position(idx, self._size)]\n"),
    ("\nclass Graph:\n", "\ndef _position(idx, size):\n    if size == 0 or idx >= size:\n        raise IndexError('list index out of range')\n    if idx >= 0:\n        return idx\n    back = -idx % size\n    return size - back if back > 1 else size - 1\n\n\nclass Graph:\n"))
ref("index-method", sub(r"    def __getitem__\(self, idx\):\n        if self\._size == 0 or idx >= self\._size:\n            raise IndexError\('list index out of range'\)\n\n        if idx < 0:\n            idx = self\._size - max\(abs\(idx\) % self\._size, 1\)\n\n        item = self\._ptr\[idx\]\n", "    def _at(self, idx):\n        if self._size == 0:\n            raise IndexError('list index out of range')\n        if idx >= self._size:\n            raise IndexError('list index out of range')\n        if idx < 0:\n            idx = self._size - max(-idx % self._size, 1)\n        return self._ptr[idx]\n\n    def __getitem__(self, idx):\n        item = self._at(idx)\n"))
ref("next-order", sub(r"        if self\._pos == self\._size:\n            raise StopIteration\n", "        if self._pos >= self._size:\n            raise StopIteration()\n"))
ref("next-guard", sub(r"        if self\._pos == self\._size:\n            raise StopIteration\n        else: *\n            curr = self\._ptr\[self\._pos\]\n            self\._pos \+= 1\n\n            return (.*)\n", r"        if not self._pos < self._size:\n            raise StopIteration\n\n        pos = self._pos\n        self._pos = pos + 1\n        curr = self._ptr[pos]\n        return \1\n"))
ref("next-less", sub(r"        if self\._pos == self\._size:\n            raise StopIteration\n        else: *\n            curr = self\._ptr\[self\._pos\]\n            self\._pos \+= 1\n\n            return (.*)\n", r"        if self._pos < self._size:\n            curr, self._pos = self._ptr[self._pos], self._pos + 1\n            return \1\n        raise StopIteration\n"))
ref("add-vertex-merged", ("        if to_vertexs is None or len(to_vertexs) == 0:\n            _lib.gphrx_add_vertex(self._graph, vertex_id, None, 0)\n        else:\n            EdgesArray = ctypes.c_uint64 * len(to_vertexs)\n            edges = EdgesArray(*to_vertexs)\n            _lib.gphrx_add_vertex(self._graph, vertex_id, edges, len(to_vertexs))\n",
    "        count = 0 if to_vertexs is None else len(to_vertexs)\n        edges = (ctypes.c_uint64 * count)(*to_vertexs) if count > 0 else None\n        _lib.gphrx_add_vertex(self._graph, vertex_id, edges, count)\n"))
ref("add-vertex-truth", ("        if to_vertexs is None or len(to_vertexs) == 0:\n            _lib.gphrx_add_vertex(self._graph, vertex_id, None, 0)\n        else:\n            EdgesArray = ctypes.c_uint64 * len(to_vertexs)\n            edges = EdgesArray(*to_vertexs)\n            _lib.gphrx_add_vertex(self._graph, vertex_id, edges, len(to_vertexs))\n",
    "        if not to_vertexs:\n            _lib.gphrx_add_vertex(self._graph, vertex_id, None, 0)\n            return\n        count = len(to_vertexs)\n        edges = (ctypes.c_uint64 * count)(*to_vertexs)\n        _lib.gphrx_add_vertex(self._graph, vertex_id, edges, count)\n"))
ref("bytes-helper", sub(r"        size = ctypes\.c_size_t\(\)\n        bytes_ptr = _lib\.(gphrx_\w*to_bytes)\(self\._graph, ctypes\.byref\(size\)\)\n        py_bytes = bytes\(bytes_ptr\[:size\.value\]\)\n\n        _lib\.free_gphrx_bytes_buffer\(bytes_ptr, size\)\n\n        return py_bytes\n", r"        return _take_bytes(_lib.\1, self._graph)\n"),
    ("\nclass Graph:\n", "\ndef _take_bytes(to_bytes, handle):\n    size = ctypes.c_size_t()\n    ptr = to_bytes(handle, ctypes.byref(size))\n    try:\n        return bytes(ptr[:size.value])\n    finally:\n        _lib.free_gphrx_bytes_buffer(ptr, size.value)\n\n\nclass Graph:\n"))
ref("bytes-string-at", sub(r"py_bytes = bytes\(bytes_ptr\[:size\.value\]\)", "py_bytes = ctypes.string_at(bytes_ptr, size.value)"))
ref("from-bytes-order", sub(r"        bytes_arr = \(ctypes\.c_ubyte \* \(len\(bytes_obj\)\)\)\.from_buffer\(bytearray\(bytes_obj\)\)\n\n        error = ctypes\.c_uint8\(\)\n", "        length = len(bytes_obj)\n        error = ctypes.c_uint8(0)\n        buffer = bytearray(bytes_obj)\n        bytes_arr = (ctypes.c_ubyte * length).from_buffer(buffer)\n"))
ref("from-bytes-early", sub(r"        if error\.value != _GphrxError\.GPHRX_NO_ERROR\.value:\n            raise ValueError\(\n                (\w+)\.__name__ \+ ' could not be constructed from the provided bytes'\n            \)\n\n        return (.*)\n", r"        if error.value == _GphrxError.GPHRX_NO_ERROR.value:\n            return \2\n\n        raise ValueError(f'{\1.__name__} could not be constructed from the provided bytes')\n"))
ref("from-buffer-copy", sub(r"\(ctypes\.c_ubyte \* \(len\(bytes_obj\)\)\)\.from_buffer\(bytearray\(bytes_obj\)\)", "(ctypes.c_ubyte * len(bytes_obj)).from_buffer_copy(bytes_obj)"))
ref("classmethod", sub(r"    @staticmethod\n    def from_bytes\(bytes_obj\):", "    @classmethod\n    def from_bytes(cls, bytes_obj):"), ("        return Graph(_c_graph=c_graph)\n\n    def duplicate(self):\n        \"\"\"Creates a deep copy of the `Graph`.\"\"\"\n", "        return cls(_c_graph=c_graph)\n\n    def duplicate(self):\n        \"\"\"Creates a deep copy of the `Graph`.\"\"\"\n"))
ref("wrap-helper", sub(r"return Graph\(_c_graph=(\w+)\)", r"return _wrap(\1)"), ("\nclass Graph:\n", "\ndef _wrap(handle):\n    return Graph(_c_graph=handle)\n\n\nclass Graph:\n"))
ref("new-branches", ("            self._graph = _lib.gphrx_new_undirected() if is_undirected else _lib.gphrx_new_directed()\n", "            if is_undirected:\n                self._graph = _lib.gphrx_new_undirected()\n            else:\n                self._graph = _lib.gphrx_new_directed()\n"))
ref("new-fn", ("            self._graph = _lib.gphrx_new_undirected() if is_undirected else _lib.gphrx_new_directed()\n", "            new = _lib.gphrx_new_undirected if is_undirected else _lib.gphrx_new_directed\n            self._graph = new()\n"))
ref("size-helper", sub(r"        size = ctypes\.c_size_t\(\)\n        arr_ptr = _lib\.(gphrx_get_vertex_\w+)\(self\._graph, vertex_id, ctypes\.byref\(size\)\)\n        return _GraphVertexList\(arr_ptr, size\.value\)\n", r"        return self._vertex_list(_lib.\1, vertex_id)\n"),
    ("    def vertex_in_degree(self, vertex_id):\n", "    def _vertex_list(self, getter, vertex_id):\n        size = ctypes.c_size_t(0)\n        items = getter(self._graph, vertex_id, ctypes.byref(size))\n        return _GraphVertexList(items, size.value)\n\n    def vertex_in_degree(self, vertex_id):\n"))
ref("rename-fields", sub(r"self\._ptr\b", "self._items"), sub(r"self\._size\b", "self._length"))
ref("base-list", ("\nclass _GraphEdgeList:\n", "\nclass _NativeList:\n    def __len__(self):\n        return int(self._size)\n\n    def _checked(self, idx):\n        if self._size == 0 or idx >= self._size:\n            raise IndexError('list index out of range')\n        if idx < 0:\n            return self._size - max(abs(idx) % self._size, 1)\n        return idx\n\n\nclass _GraphEdgeList(_NativeList):\n"),
    ("class _GraphVertexList:\n", "class _GraphVertexList(_NativeList):\n"), ("class _CsrSquareMatrixEntryList:\n", "class _CsrSquareMatrixEntryList(_NativeList):\n"),
    sub(r"\n    def __len__\(self\):\n        return int\(self\._size\)\n(?=\n\nclass|\Z)", ""),
    sub(r"        if self\._size == 0 or idx >= self\._size:\n            raise IndexError\('list index out of range'\)\n\n        if idx < 0:\n            idx = self\._size - max\(abs\(idx\) % self\._size, 1\)\n\n        item = self\._ptr\[idx\]\n", "        item = self._ptr[self._checked(idx)]\n"))
ref("base-iterator", ("\nclass _GraphEdgeListIterator:\n", "\nclass _NativeIterator:\n    def _advance(self):\n        if self._pos == self._size:\n            raise StopIteration\n        item = self._ptr[self._pos]\n        self._pos += 1\n        return item\n\n\nclass _GraphEdgeListIterator(_NativeIterator):\n"),
    sub(r"class (_GraphVertexListIterator|_CsrSquareMatrixEntryListIterator):", r"class \1(_NativeIterator):"),
    sub(r"        if self\._pos == self\._size:\n            raise StopIteration\n        else: *\n            curr = self\._ptr\[self\._pos\]\n            self\._pos \+= 1\n\n            return (.*)\n", r"        curr = self._advance()\n        return \1\n"))
ref("iter-base-next", ("\nclass _GraphEdgeListIterator:\n", "\nclass _NativeIterator:\n    def __iter__(self):\n        return self\n\n    def __next__(self):\n        if self._pos == self._size:\n            raise StopIteration\n        self._pos += 1\n        return self._convert(self._ptr[self._pos - 1])\n\n\nclass _GraphEdgeListIterator(_NativeIterator):\n"),
    sub(r"class (_GraphVertexListIterator|_CsrSquareMatrixEntryListIterator):", r"class \1(_NativeIterator):"),
    sub(r"    def __next__\(self\):\n        if self\._pos == self\._size:\n            raise StopIteration\n        else: *\n            curr = self\._ptr\[self\._pos\]\n            self\._pos \+= 1\n\n            return (.*)\n", r"    def _convert(self, curr):\n        return \1\n"))
ref("init-base", ("\nclass _GraphEdgeList:\n", "\nclass _NativeList:\n    _item = None\n\n    def __init__(self, c_list_ptr, size):\n        if not hasattr(c_list_ptr, 'contents') or not hasattr(c_list_ptr, '_type_'):\n            raise TypeError(type(self).__name__ + ' received a non-pointer object')\n        elif not isinstance(c_list_ptr.contents, self._item):\n            raise TypeError(type(self).__name__ + ' received a pointer to the wrong type')\n\n        self._ptr = c_list_ptr\n        self._size = size\n\n\nclass _GraphEdgeList(_NativeList):\n"),
    sub(r"class _GraphVertexList:\n", "class _GraphVertexList(_NativeList):\n"),
    sub(r"class (_Graph(Edge|Vertex)List\(_NativeList\)):\n(    \"\"\".*\n)?    def __init__[^§]*?        self\._size = size\n", r"class \1:\n    _item = _GphrxGraph\2_c\n"))
ref("handle-base", ("\nclass Graph:\n", "\nclass _Counted:\n    def is_undirected(self):\n        return bool(self._is_undirected(self._graph))\n\n    def vertex_count(self):\n        return int(self._vertex_count(self._graph))\n\n\nclass Graph(_Counted):\n    _is_undirected = _lib.gphrx_is_undirected\n    _vertex_count = _lib.gphrx_vertex_count\n\n"),
    sub(r"    def (is_undirected|vertex_count)\(self\):\n        \"\"\".*\n        return \w+\(_lib\.gphrx_\1\(self\._graph\)\)\n", ""))
ref("no-int", sub(r"return int\((_lib\..*)\)\n", r"return \1\n"))
ref("bool-compare", sub(r"return bool\(_lib\.(gphrx_\w+)\(self\._graph\)\)\n", r"return _lib.\1(self._graph) != 0\n"))
ref("lib-alias", sub(r"(?<=\n\n\n)class Graph:", "_gx = _lib\n\n\nclass Graph:"), sub(r"(?<=        )_lib\.free", "_gx.free"))
ref("table-of-types", ("_lib.gphrx_is_undirected.argtypes = [_GphrxGraph_c]\n_lib.gphrx_is_undirected.restype = ctypes.c_int8\n", "_lib.gphrx_is_undirected.argtypes = (_GphrxGraph_c,)\n_lib.gphrx_is_undirected.restype = ctypes.c_byte\n"))
ref("argtypes-loop", sub(r"_lib\.gphrx_vertex_count\.argtypes = \[_GphrxGraph_c\]\n_lib\.gphrx_vertex_count\.restype = ctypes\.c_uint64\n", "for _f in (_lib.gphrx_vertex_count,):\n    _f.argtypes = [_GphrxGraph_c]\n    _f.restype = ctypes.c_uint64\n"))
ref("declare-helper", sub(r"_lib\.gphrx_vertex_count\.argtypes = \[_GphrxGraph_c\]\n_lib\.gphrx_vertex_count\.restype = ctypes\.c_uint64\n", "def _declare(f, args, res):\n    f.argtypes = args\n    f.restype = res\n\n\n_declare(_lib.gphrx_vertex_count, [_GphrxGraph_c], ctypes.c_uint64)\n"))
ref("tuple-item", ("        item = self._ptr[idx]\n        return (int(item.from_vertex), int(item.to_vertex))\n", "        return _edge(self._ptr[idx])\n"), ("\nclass Graph:\n", "\ndef _edge(item):\n    return int(item.from_vertex), int(item.to_vertex)\n\n\nclass Graph:\n"))
ref("property-size", ("class _GraphEdgeList:\n", "class _GraphEdgeList:\n    @property\n    def _count(self):\n        return self._size\n\n"), ("        return _GraphEdgeListIterator(self._ptr, self._size, self)\n", "        return _GraphEdgeListIterator(self._ptr, self._count, self)\n"))
ref("from-ctypes", ("import ctypes\n", "import ctypes\nfrom ctypes import byref, c_size_t\n"), sub(r"ctypes\.byref", "byref"), sub(r"size = ctypes\.c_size_t\(\)", "size = c_size_t()"))
ref("del-guard", sub(r"    def __del__\(self\):\n        (_lib\.free_gphrx_graph\(self\._graph\))", r"    def __del__(self):\n        if self._graph is not None:\n            \1"))
ref("del-hasattr", sub(r"    def __del__\(self\):\n        (_lib\.free_gphrx_graph\(self\._graph\))", r"    def __del__(self):\n        if hasattr(self, '_graph'):\n            \1"))
ref("str-format", ("        return self.to_string()\n", "        return self.to_string(decimal_digits=2)\n"))
ref("iter-generator-free", sub(r"return _GraphEdgeListIterator\(self\._ptr, self\._size, self\)", "return _GraphEdgeListIterator(c_list_ptr=self._ptr, size=self._size, list_ref=self)"))
ref("annotations", ("    def add_edge(self, from_vertex_id, to_vertex_id):\n", "    def add_edge(self, from_vertex_id: int, to_vertex_id: int) -> None:\n"), ("    def vertex_count(self):\n", "    def vertex_count(self) -> int:\n"))
ref("assert-stmt", ("        c_matrix = _lib.gphrx_find_avg_pool_matrix(self._graph, block_dimension)\n        return", "        c_matrix = _lib.gphrx_find_avg_pool_matrix(self._graph, block_dimension)\n        assert isinstance(c_matrix, _GphrxCsrSquareMatrix_c)\n        return"))
ref("local-lib", ("        size = ctypes.c_size_t()\n        arr_ptr = _lib.gphrx_get_edge_list(self._graph, ctypes.byref(size))\n", "        size, lib = ctypes.c_size_t(), _lib\n        arr_ptr = lib.gphrx_get_edge_list(self._graph, ctypes.byref(size))\n"))

src = open(P).read()
only = sys.argv[1:]
W = "/tmp/pyref"
shutil.rmtree(W, ignore_errors=True)
shutil.copytree("/repo", W, ignore=shutil.ignore_patterns("target", ".git"))
os.makedirs("/tmp/pyt2/graphrox", exist_ok=True)
shutil.copy("/repo/target/debug/libgraphrox.so", "/tmp/pyt2/graphrox/graphrox-x86_64-unknown-linux-gnu.so")
for name, edits in R:
    if only and name not in only: continue
    s, ok = src, True
    for e in edits:
        if e[0] == "re":
            n = re.sub(e[1], e[2], s)
        else:
            n = s.replace(e[0], e[1]) if not e[0].startswith("\nclass Graph:") else s.replace(e[0], e[1], 1)
        if n == s: ok = False; print(name, "NOTHING REPLACED", e[:2])
        s = n
    if not ok: continue
    open(W + "/graphrox-py/graphrox/__init__.py", "w").write(s)
    open("/tmp/pyt2/graphrox/__init__.py", "w").write(s)
    b = subprocess.run(["python3", "/verif/replay/py_check.py", "run", "/tmp/pyt2", "5", "4", "/tmp/cur.ref"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    r = subprocess.run("/tmp/run.sh --verify-module py 2>&1", shell=True, stdout=subprocess.PIPE, text=True, env=dict(os.environ, REPO=W, GXD=""))
    un = json.load(open("/tmp/py.json"))["unreached"]
    m = re.search(r"verification results:: .*", r.stdout)
    bad = sorted(set(re.findall(r"^error: (.*)", r.stdout, re.M)))
    print(name, "QUIET" if b.returncode == 0 else "BATTERY " + b.stdout[-300:], m.group(0)[23:50] if m else "NO RESULT", bad[:3] if "0 errors" not in (m.group(0) if m else "") else "", un or "", flush=True)
