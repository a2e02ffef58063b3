#!/usr/bin/env python3
"""the real Python module against the C library under it.

py_check.py run PKGDIR SEED SECS CUR | py_check.py case PKGDIR TEXT
A case is a list of steps; every step is done once through the module and once by direct calls of the C
library (declared here), and the results are compared. What the module allocates and frees is counted at
the boundary: each thing is freed once, with its own length, nothing is used after it is freed, nothing is
left over. Exit 10: a case fails (CASE, WHY)."""
import ctypes, gc, json, math, os, random, sys, time

U64 = 2 ** 64 - 1


class Bad(Exception):
    pass


# ---------------------------------------------------------------- the boundary

ALLOC = {"gphrx_matrix_string": "string", "gphrx_compressed_graph_matrix_string": "string", "gphrx_matrix_to_string": "string",
         "gphrx_matrix_to_string_with_precision": "string", "gphrx_to_bytes": "bytes", "gphrx_compressed_graph_to_bytes": "bytes",
         "gphrx_new_undirected": "graph", "gphrx_new_directed": "graph", "gphrx_from_bytes": "graph", "gphrx_duplicate": "graph",
         "gphrx_approximate": "graph", "gphrx_decompress": "graph", "gphrx_compress": "cgraph", "gphrx_compressed_graph_from_bytes": "cgraph",
         "gphrx_compressed_graph_duplicate": "cgraph", "gphrx_find_avg_pool_matrix": "matrix", "gphrx_matrix_duplicate": "matrix",
         "gphrx_get_edge_list": "edges", "gphrx_get_vertex_in_edges_list": "verts", "gphrx_get_vertex_out_edges_list": "verts",
         "gphrx_matrix_get_entry_list": "ents"}
FREE = {"free_gphrx_string_buffer": "string", "free_gphrx_bytes_buffer": "bytes", "free_gphrx_graph": "graph", "free_gphrx_compressed_graph": "cgraph",
        "free_gphrx_matrix": "matrix", "free_gphrx_edge_list": "edges", "free_gphrx_vertex_list": "verts", "free_gphrx_matrix_entry_list": "ents"}
SIZE = {"bytes": 1, "edges": 16, "verts": 8, "ents": 24}
live, trouble = {}, []


def addr(x):
    """the pointer in a value that goes to or comes from the library"""
    if x is None:
        return 0
    if isinstance(x, int):
        return x & U64
    if isinstance(x, ctypes.Structure):
        return int.from_bytes(bytes(x)[:8], sys.byteorder)
    if isinstance(x, ctypes._SimpleCData):
        return (x.value or 0) if isinstance(x.value, (int, type(None))) else 0
    try:
        return ctypes.cast(x, ctypes.c_void_p).value or 0
    except (ctypes.ArgumentError, TypeError):
        return 0


def length(a):
    for x in reversed(a):
        y = getattr(x, "_obj", None)
        if y is None and hasattr(x, "contents"):
            try:
                y = x.contents
            except ValueError:
                y = None
        if y is None and isinstance(x, ctypes._SimpleCData):
            y = x
        v = getattr(y, "value", None)
        if isinstance(v, int):
            return v
    return None


def number(x):
    return x.value if isinstance(x, ctypes._SimpleCData) else x


class Function:
    def __init__(self, name, f):
        self.__dict__.update(_name=name, _f=f)

    def __getattr__(self, a):
        return getattr(self.__dict__["_f"], a)

    def __setattr__(self, a, v):
        setattr(self.__dict__["_f"], a, v)

    def __call__(self, *a, **k):
        name, f = self._name, self._f
        if name in FREE and a:
            p, kind = addr(a[0]), FREE[name]
            if p >= 4096:
                got = live.get(p)
                if got is None or got[0] != kind:
                    trouble.append(f"{name} is given what is not a live {kind}")
                    return None
                if kind in SIZE:
                    if len(a) < 2 or number(a[1]) != got[1]:
                        trouble.append(f"{name} is given the length {number(a[1]) if len(a) > 1 else None} of {got[1]}")
                        return None
                    ctypes.memset(p, 0xA5, SIZE[kind] * got[1])
                elif kind == "string":
                    ctypes.memset(p, 0x5A, len(ctypes.string_at(p)))
                del live[p]
            return f(*a, **k)
        if name not in ("gphrx_new_undirected", "gphrx_new_directed") and "from_bytes" not in name and a:
            p = addr(a[0])
            got = live.get(p)
            if got is None or got[0] not in ("graph", "cgraph", "matrix"):
                trouble.append(f"{name} is called on what is not a live handle")
                raise Bad(trouble[-1])
        r = f(*a, **k)
        if name in ALLOC:
            kind, p = ALLOC[name], addr(r)
            n = length(a) if kind in SIZE else None
            if p and not (kind in SIZE and n == 0):
                live[p] = (kind, n)
        return r


class Library:
    """what ctypes.CDLL gives the module"""
    def __init__(self, *a, **k):
        self.__dict__["_lib"] = RealCDLL(*a, **k)
        self.__dict__["_fs"] = {}

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        fs = self.__dict__["_fs"]
        if n not in fs:
            fs[n] = Function(n, getattr(self.__dict__["_lib"], n))
        return fs[n]

    __getitem__ = __getattr__


RealCDLL = ctypes.CDLL


def load(pkg):
    global G, raw
    sys.path.insert(0, pkg)
    ctypes.CDLL = ctypes.PyDLL = Library
    old = ctypes.cdll._dlltype
    ctypes.cdll._dlltype = Library
    sys.dont_write_bytecode = True
    try:
        import graphrox
    finally:
        ctypes.CDLL = RealCDLL
        ctypes.cdll._dlltype = old
    G = graphrox
    d = os.path.join(pkg, "graphrox")
    raw = RealCDLL(os.path.join(d, next(f for f in os.listdir(d) if f.endswith(".so"))))
    declare()


# ---------------------------------------------------------------- the library, directly

class HG(ctypes.Structure): _fields_ = [("p", ctypes.c_void_p)]
class Edge(ctypes.Structure): _fields_ = [("a", ctypes.c_uint64), ("b", ctypes.c_uint64)]
class Vert(ctypes.Structure): _fields_ = [("v", ctypes.c_uint64)]
class Ent(ctypes.Structure): _fields_ = [("e", ctypes.c_double), ("c", ctypes.c_uint64), ("r", ctypes.c_uint64)]


def declare():
    u, n, d, i8, b, vp = ctypes.c_uint64, ctypes.c_size_t, ctypes.c_double, ctypes.c_int8, ctypes.c_uint8, ctypes.c_void_p
    P = ctypes.POINTER
    for f, a, r in (
        ("gphrx_new_undirected", (), HG), ("gphrx_new_directed", (), HG), ("gphrx_from_bytes", (P(b), n, P(b)), HG), ("gphrx_duplicate", (HG,), HG),
        ("gphrx_matrix_string", (HG,), vp), ("gphrx_to_bytes", (HG, P(n)), P(b)), ("gphrx_is_undirected", (HG,), i8), ("gphrx_vertex_count", (HG,), u),
        ("gphrx_edge_count", (HG,), u), ("gphrx_does_edge_exist", (HG, u, u), i8), ("gphrx_find_avg_pool_matrix", (HG, u), HG),
        ("gphrx_approximate", (HG, u, d), HG), ("gphrx_compress", (HG, b), HG), ("gphrx_get_edge_list", (HG, P(n)), P(Edge)),
        ("gphrx_add_vertex", (HG, u, P(u), n), None), ("gphrx_add_edge", (HG, u, u), None), ("gphrx_delete_edge", (HG, u, u), None),
        ("gphrx_get_vertex_in_edges_list", (HG, u, P(n)), P(Vert)), ("gphrx_get_vertex_out_edges_list", (HG, u, P(n)), P(Vert)),
        ("gphrx_get_vertex_in_degree", (HG, u), u), ("gphrx_get_vertex_out_degree", (HG, u), u),
        ("gphrx_compressed_graph_duplicate", (HG,), HG), ("gphrx_compressed_graph_compression_level", (HG,), b),
        ("gphrx_compressed_graph_is_undirected", (HG,), i8), ("gphrx_compressed_graph_vertex_count", (HG,), u), ("gphrx_compressed_graph_edge_count", (HG,), u),
        ("gphrx_compressed_graph_does_edge_exist", (HG, u, u), i8), ("gphrx_get_compressed_matrix_entry", (HG, u, u), u),
        ("gphrx_compressed_graph_matrix_string", (HG,), vp), ("gphrx_compressed_graph_to_bytes", (HG, P(n)), P(b)),
        ("gphrx_compressed_graph_from_bytes", (P(b), n, P(b)), HG), ("gphrx_decompress", (HG,), HG), ("gphrx_matrix_duplicate", (HG,), HG),
        ("gphrx_matrix_dimension", (HG,), u), ("gphrx_matrix_entry_count", (HG,), u), ("gphrx_matrix_get_entry", (HG, u, u), d),
        ("gphrx_matrix_to_string_with_precision", (HG, n), vp), ("gphrx_matrix_get_entry_list", (HG, P(n)), P(Ent)),
        ("free_gphrx_string_buffer", (vp,), None), ("free_gphrx_graph", (HG,), None), ("free_gphrx_compressed_graph", (HG,), None), ("free_gphrx_matrix", (HG,), None)):
        g = getattr(raw, f)
        g.argtypes, g.restype = list(a), r


def rtext(p):
    s = ctypes.string_at(p).decode() if p else None
    raw.free_gphrx_string_buffer(p)
    return s


def rlist(f, *a):
    n = ctypes.c_size_t()
    p = f(*a, ctypes.byref(n))
    return [tuple(getattr(p[i], x[0]) for x in type(p[i])._fields_) for i in range(n.value)]  # not freed: a few bytes


def rbytes(f, h):
    n = ctypes.c_size_t()
    p = f(h, ctypes.byref(n))
    return ctypes.string_at(p, n.value)


def rfrom(f, data):
    err = ctypes.c_uint8()
    h = f((ctypes.c_uint8 * len(data)).from_buffer_copy(data), len(data), ctypes.byref(err))
    return h if err.value == 0 else None


# ---------------------------------------------------------------- one case

def same(what, got, want):
    ok = type(got) is type(want) and (got == want or isinstance(want, float) and math.isnan(want) and math.isnan(got))
    if not ok:
        raise Bad(f"{what} is {got!r}, and {want!r} in the library")


def raises(what, exc, f):
    try:
        r = f()
    except exc:
        return
    except Exception as e:
        raise Bad(f"{what} raises {type(e).__name__}, not {exc.__name__}")
    raise Bad(f"{what} gives {r!r}, and {exc.__name__} is due")


def drain(it):
    out = []
    try:
        while True:
            out.append(next(it))
    except StopIteration:
        return out


def check_list(what, make, want):
    l = make()
    gc.collect()
    n = len(want)
    same(f"len({what})", len(l), n)
    items = [l[i] for i in range(n)]
    if sorted(items) != sorted(want):
        raise Bad(f"{what} has {items!r}, and {want!r} in the library")
    for x, y in zip(sorted(items), sorted(want)):
        same(f"an item of {what}", x, y)
    for i in (n, n + 1, n + 7, 2 ** 63):
        raises(f"{what}[{i}] of {n}", IndexError, lambda: l[i])
    for i in list(range(-2 * n - 3, 0)) + [-2 ** 63 - 5]:
        if n == 0:
            raises(f"{what}[{i}] of {n}", IndexError, lambda: l[i])
        else:
            same(f"{what}[{i}] of {n}", l[i], items[n - max(-i % n, 1)])
    for again in range(2):
        it = iter(l)
        for x in items:
            same(f"the next item of {what}", next(it), x)
        for again in range(3):
            raises(f"the iterator of {what} at its end", StopIteration, lambda: next(it))
    if n:
        a, b = iter(l), iter(l)
        next(a)
        same(f"the second iterator over {what}", next(b), items[0])
        del a, b
    same(f"list({what})", list(l), items)
    it = iter(l)
    del l
    gc.collect()
    same(f"{what} through an iterator that outlives the list", drain(it), items)
    it = iter(make())
    gc.collect()
    if sorted(drain(it)) != sorted(want):
        raise Bad(f"{what} through an iterator over a list nobody else holds differs")


def pick(l, i):
    return l[i % len(l)] if l else None


class Case:
    def __init__(self):
        self.g, self.c, self.m = [], [], []

    def small(self, h, lim=40):
        return raw.gphrx_vertex_count(h) <= lim

    def step(self, s):
        op, a = s[0], s[1:]
        if op == "G":
            o = (lambda: G.Graph(), lambda: G.Graph(True), lambda: G.Graph(False), lambda: G.Graph(is_undirected=True), lambda: G.Graph(is_undirected=False))[a[0]]()
            h = raw.gphrx_new_undirected() if a[0] in (1, 3) else raw.gphrx_new_directed()
            self.g.append((o, h))
            self.graph(o, h, 0, 0)
            return
        if op == "b":
            data = bytes.fromhex(a[0])
            if a[1]:
                data = bytearray(data)
            self.parse(data)
            return
        if op == "x!":
            l = pick({"g": self.g, "c": self.c, "m": self.m}[a[0]], a[1])
            if l:
                {"g": self.g, "c": self.c, "m": self.m}[a[0]].remove(l)
            return
        k = op[0]
        e = pick({"g": self.g, "c": self.c, "m": self.m}[k], a[0])
        if e is None:
            return
        o, h = e
        if op == "gE":
            o.add_edge(a[1], a[2])
            raw.gphrx_add_edge(h, a[1], a[2])
            self.graph(o, h, a[1], a[2])
        elif op == "gD":
            o.delete_edge(a[1], a[2])
            raw.gphrx_delete_edge(h, a[1], a[2])
            self.graph(o, h, a[1], a[2])
        elif op == "gV":
            to = a[2]
            if to == "default":
                o.add_vertex(a[1])
            elif a[3]:
                o.add_vertex(a[1], to_vertexs=to if to is None else tuple(to))
            else:
                o.add_vertex(a[1], to)
            l = to if isinstance(to, list) else []
            raw.gphrx_add_vertex(h, a[1], (ctypes.c_uint64 * len(l))(*l), len(l))
            self.graph(o, h, a[1], l[-1] if l else 0)
        elif op == "gq":
            self.graph(o, h, a[1], a[2])
        elif op == "gs":
            if self.small(h):
                same("matrix_string()", o.matrix_string(), rtext(raw.gphrx_matrix_string(h)))
            b = bytes(o)
            if sorted(b) != sorted(rbytes(raw.gphrx_to_bytes, h)):
                raise Bad("bytes(graph) differs")
            o2 = self.parse(b, True)
            if o2 is not None:
                self.graph(o2[0], h, 1, 2)
        elif op == "gl":
            check_list("edge_list()", o.edge_list, rlist(raw.gphrx_get_edge_list, h))
            check_list("vertex_in_edges()", lambda: o.vertex_in_edges(a[1]), [x[0] for x in rlist(raw.gphrx_get_vertex_in_edges_list, h, a[1])])
            check_list("vertex_out_edges()", lambda: o.vertex_out_edges(a[1]), [x[0] for x in rlist(raw.gphrx_get_vertex_out_edges_list, h, a[1])])
        elif op == "gu":
            self.g.append((o.duplicate(), raw.gphrx_duplicate(h)))
            self.graph(*self.g[-1], 0, 1)
        elif op == "gp":
            if self.small(h, 300) or raw.gphrx_edge_count(h) < 40:
                self.m.append((o.find_avg_pool_matrix(a[1]), raw.gphrx_find_avg_pool_matrix(h, a[1])))
                self.matrix(*self.m[-1], 0, 0)
        elif op == "gx":
            if self.small(h, 300) or raw.gphrx_edge_count(h) < 40:
                self.g.append((o.approximate(a[1], a[2]), raw.gphrx_approximate(h, a[1], a[2])))
                self.graph(*self.g[-1], 0, 1)
        elif op == "gc":
            if self.small(h, 300) or raw.gphrx_edge_count(h) < 40:
                self.c.append((o.compress(a[1]), raw.gphrx_compress(h, min(max(a[1], 1), 64))))
                self.cgraph(*self.c[-1], 0, 1)
        elif op == "gm":
            b = bytearray(bytes(o))
            for i, x in a[1]:
                b[i % len(b)] = x
            self.parse(bytes(b) if a[2] >= 0 else bytes(b[:a[2]]))
        elif op == "cq":
            self.cgraph(o, h, a[1], a[2])
        elif op == "cs":
            if raw.gphrx_compressed_graph_vertex_count(h) <= 200:
                same("matrix_string() of a compressed graph", o.matrix_string(), rtext(raw.gphrx_compressed_graph_matrix_string(h)))
            b = bytes(o)
            if sorted(b) != sorted(rbytes(raw.gphrx_compressed_graph_to_bytes, h)):
                raise Bad("bytes(compressed graph) differs")
            o2 = self.parse(b, True)
            if o2 is not None:
                self.cgraph(o2[0], h, 1, 2)
        elif op == "cu":
            self.c.append((o.duplicate(), raw.gphrx_compressed_graph_duplicate(h)))
            self.cgraph(*self.c[-1], 0, 1)
        elif op == "cd":
            self.g.append((o.decompress(), raw.gphrx_decompress(h)))
            self.graph(*self.g[-1], 0, 1)
        elif op == "cm":
            b = bytearray(bytes(o))
            for i, x in a[1]:
                b[i % len(b)] = x
            self.parse(bytes(b) if a[2] >= 0 else bytes(b[:a[2]]))
        elif op == "mq":
            self.matrix(o, h, a[1], a[2])
        elif op == "ms":
            if raw.gphrx_matrix_dimension(h) <= 40:
                w = rtext(raw.gphrx_matrix_to_string_with_precision(h, 2))
                same("str(matrix)", str(o), w)
                same("to_string()", o.to_string(), w)
                same(f"to_string({a[1]})", o.to_string(a[1]), rtext(raw.gphrx_matrix_to_string_with_precision(h, a[1])))
                same(f"to_string(decimal_digits={a[1]})", o.to_string(decimal_digits=a[1]), rtext(raw.gphrx_matrix_to_string_with_precision(h, a[1])))
        elif op == "mu":
            self.m.append((o.duplicate(), raw.gphrx_matrix_duplicate(h)))
            self.matrix(*self.m[-1], 0, 0)
        elif op == "ml":
            check_list("entry_list()", o.entry_list, rlist(raw.gphrx_matrix_get_entry_list, h))

    def parse(self, data, same_data=False):
        out = None
        for cls, f, keep in ((G.Graph, raw.gphrx_from_bytes, self.g), (G.CompressedGraph, raw.gphrx_compressed_graph_from_bytes, self.c)):
            h = rfrom(f, bytes(data))
            before = bytes(data)
            if h is None:
                raises(f"{cls.__name__}.from_bytes({before.hex()})", ValueError, lambda: cls.from_bytes(data))
            else:
                o = cls.from_bytes(data)
                if type(o) is not cls:
                    raise Bad("from_bytes gives another class")
                (self.graph if keep is self.g else self.cgraph)(o, h, 0, 1)
                out = (o, h)
                keep.append(out)
            if bytes(data) != before:
                raise Bad("from_bytes changes its argument")
        return out

    def graph(self, o, h, a, b):
        same("is_undirected()", o.is_undirected(), raw.gphrx_is_undirected(h) == 1)
        same("vertex_count()", o.vertex_count(), raw.gphrx_vertex_count(h))
        same("edge_count()", o.edge_count(), raw.gphrx_edge_count(h))
        for x, y in ((a, b), (b, a)):
            same(f"does_edge_exist({x}, {y})", o.does_edge_exist(x, y), raw.gphrx_does_edge_exist(h, x, y) == 1)
        for x in (a, b):
            same(f"vertex_in_degree({x})", o.vertex_in_degree(x), raw.gphrx_get_vertex_in_degree(h, x))
            same(f"vertex_out_degree({x})", o.vertex_out_degree(x), raw.gphrx_get_vertex_out_degree(h, x))
        got, want = sorted(o.edge_list()), sorted(rlist(raw.gphrx_get_edge_list, h))
        if got != want:
            raise Bad(f"the graph has the edges {got!r}, and {want!r} in the library")

    def cgraph(self, o, h, a, b):
        same("is_undirected() of a compressed graph", o.is_undirected(), raw.gphrx_compressed_graph_is_undirected(h) == 1)
        same("vertex_count() of a compressed graph", o.vertex_count(), raw.gphrx_compressed_graph_vertex_count(h))
        same("edge_count() of a compressed graph", o.edge_count(), raw.gphrx_compressed_graph_edge_count(h))
        if o.compression_level() != raw.gphrx_compressed_graph_compression_level(h):
            raise Bad(f"compression_level() is {o.compression_level()}, and {raw.gphrx_compressed_graph_compression_level(h)} in the library")
        for x, y in {(a, b), (b, a)} | {(x, y) for x in range(3) for y in range(3)}:
            same(f"does_edge_exist({x}, {y}) of a compressed graph", o.does_edge_exist(x, y), raw.gphrx_compressed_graph_does_edge_exist(h, x, y) == 1)
            same(f"get_compressed_matrix_entry({x}, {y})", o.get_compressed_matrix_entry(x, y), raw.gphrx_get_compressed_matrix_entry(h, x, y))

    def matrix(self, o, h, a, b):
        same("dimension()", o.dimension(), raw.gphrx_matrix_dimension(h))
        same("entry_count()", o.entry_count(), raw.gphrx_matrix_entry_count(h))
        for x, y in {(a, b), (b, a)} | {(x, y) for x in range(3) for y in range(3)}:
            same(f"get_entry({x}, {y})", o.get_entry(x, y), raw.gphrx_matrix_get_entry(h, x, y))
        got, want = sorted(o.entry_list()), sorted(rlist(raw.gphrx_matrix_get_entry_list, h))
        if got != want:
            raise Bad(f"the matrix has the entries {got!r}, and {want!r} in the library")

    def end(self):
        hs = [(raw.free_gphrx_graph, x[1]) for x in self.g] + [(raw.free_gphrx_compressed_graph, x[1]) for x in self.c] + [(raw.free_gphrx_matrix, x[1]) for x in self.m]
        # whatever order they go in
        self.g.clear()
        self.c.clear()
        self.m.clear()
        gc.collect()
        for f, h in hs:
            f(h)
        if live:
            k = sorted({x[0] for x in live.values()})
            live.clear()
            raise Bad(f"never freed: {', '.join(k)}")


def run_case(steps):
    live.clear()
    trouble.clear()
    c = Case()
    try:
        for i, s in enumerate(steps):
            try:
                c.step(s)
            except Bad:
                raise
            except MemoryError:
                return None
            except Exception as e:
                raise Bad(f"step {i} {json.dumps(s)} raises {type(e).__name__}: {e}")
            if trouble:
                raise Bad(f"step {i} {json.dumps(s)}: {trouble[0]}")
        c.end()
        if trouble:
            raise Bad(trouble[0])
    except Bad as e:
        return str(e)
    return None


# ---------------------------------------------------------------- generation

def gen(r):
    seen = [0, 1, 2, 3]
    spice = [int(x) for x in os.environ.get("GX_DICT", "").split() if x.lstrip("-").isdigit()] + [int(x) for x in os.environ.get("GX_PYDICT", "").split()]
    few = [x for x in spice if x <= 4000]
    big = r.random() < 0.35
    top = r.choice((3, 6, 12, 20, 70))
    def vid():
        x = r.random()
        if x < 0.35:
            return r.choice(seen)
        if big and x < 0.6:
            b = r.choice((U64, U64 - 1, 2 ** 63, 2 ** 63 - 1, 2 ** 32, 2 ** 32 - 1, 2 ** 31, 2 ** 16, 2 ** 53 + 1, 255, 256, 127, 128, r.getrandbits(64)))
            v = max(0, min(U64, b + r.randrange(-2, 3)))
        elif spice and x < 0.7:
            v = max(0, min(U64, r.choice(spice) + r.randrange(-1, 2)))
        else:
            v = r.randrange(top)
        seen.append(v)
        return v
    steps = [["G", r.randrange(5)]]
    def some_list():
        if r.random() < 0.05:
            return r.sample(range(400), r.choice((32, 64, 65, 100, 128, 129, 256, 257, 300)))
        return [vid() for _ in range(r.choice((0, 1, 2, 3, 5, 9)))] if not few or r.random() < 0.95 else [r.randrange(400) for _ in range(max(0, min(4000, r.choice(few) + r.randrange(-1, 2))))]
    if r.random() < 0.35:
        # a dense stretch, for the blocks
        n = r.choice((5, 8, 9, 16, 20))
        for v in range(n):
            l = [x for x in range(n) if r.random() < 0.8]
            steps.append(["gV", 0, v, l, 0])
    for _ in range(r.randrange(3, 26)):
        i = r.randrange(6)
        k = r.random()
        if k < 0.05: s = ["G", r.randrange(5)]
        elif k < 0.22: s = ["gE", i, vid(), vid()]
        elif k < 0.28: s = ["gD", i, vid(), vid()]
        elif k < 0.38: s = ["gV", i, vid(), r.choice((None, "default", some_list(), some_list())), r.randrange(2)]
        elif k < 0.43: s = ["gq", i, vid(), vid()]
        elif k < 0.47: s = ["gs", i]
        elif k < 0.54: s = ["gl", i, vid()]
        elif k < 0.57: s = ["gu", i]
        elif k < 0.63: s = ["gp", i, r.choice((0, 1, 2, 3, 4, 8, 300, 2 ** 32 + 2, 2 ** 16 + 3, 258, U64, vid(), *spice))]
        elif k < 0.68: s = ["gx", i, r.choice((0, 1, 2, 3, 8, 259, 2 ** 32 + 2, vid(), *spice)), r.choice((0, 1, 0.5, 0.25, 1 / 3, 1e-19, 1e-300, -1.0, 2.0, math.inf, -math.inf, math.nan, r.random()))]
        elif k < 0.74: s = ["gc", i, r.choice((1, 2, 3, 8, 20, 63, 64, 65, 100, 128, 255, 256, 257, 300, 0, -1, -5, -200, -256, 2 ** 40, -2 ** 40, r.randrange(1, 65), *spice, *(-x for x in spice)))]
        elif k < 0.76: s = ["gm", i, [[r.randrange(64), r.choice((0, 1, 2, 255, r.randrange(256)))] for _ in range(r.randrange(0, 3))], r.choice((0, 0, 0, -1, -8, -16, -20))]
        elif k < 0.78: s = ["b", bytes(r.choice((0, 1, 255, r.randrange(256))) for _ in range(r.choice((0, 1, 8, 25, 26, 27, 42, 58)))).hex(), r.randrange(2)]
        elif k < 0.80: s = ["cq", i, vid(), vid()]
        elif k < 0.83: s = ["cs", i]
        elif k < 0.85: s = ["cu", i]
        elif k < 0.88: s = ["cd", i]
        elif k < 0.89: s = ["cm", i, [[r.randrange(80), r.choice((0, 1, 2, 255, r.randrange(256)))] for _ in range(r.randrange(0, 3))], r.choice((0, 0, 0, -1, -8, -24))]
        elif k < 0.91: s = ["mq", i, vid(), vid()]
        elif k < 0.94: s = ["ms", i, r.choice((0, 1, 2, 3, 5, 10, 17, 20, 300, 256, 258, *few))]
        elif k < 0.95: s = ["mu", i]
        elif k < 0.97: s = ["ml", i]
        else: s = ["x!", r.choice("gcm"), i]
        steps.append(s)
    return steps


FIXED = [
    [["G", 0]], [["G", 1]], [["G", 0], ["gl", 0, 0], ["gs", 0]],
    [["G", 0], ["gp", 0, 2], ["mq", 0, 0, 0], ["ms", 0, 3], ["ml", 0], ["mu", 0]],
    [["G", 1], ["gE", 0, 1, 2], ["gE", 0, 2, 2], ["gl", 0, 2], ["gp", 0, 2], ["ml", 0], ["ms", 0, 4], ["gx", 0, 2, 0.5], ["gu", 0], ["gD", 0, 1, 2], ["gq", 1, 1, 2]],
    [["G", 0], ["gV", 0, 3, [1, 2, 4], 0], ["gV", 0, 9, None, 0], ["gV", 0, 10, "default", 0], ["gV", 0, 11, [], 0], ["gl", 0, 3], ["gl", 0, 1]],
    [["G", 0], *[["gV", 0, v, list(range(8)), 0] for v in range(8)], *[["gc", 0, l] for l in (-256, -1, 0, 1, 32, 64, 65, 128, 256, 257, 320)], ["cs", 0], ["cu", 0], ["cd", 0]],
    [["b", "", 0], ["b", "7ae71ffd", 0], ["b", "7ae71ffd00000001" + "00" * 18, 1], ["b", "7ae71ffd00000001" + "00" * 17 + "01", 0], ["b", "71ff7aed00000002" + "00" * 34, 0]],
]


def main():
    mode, pkg = sys.argv[1:3]
    try:
        load(pkg)
    except Exception as e:
        print(f"CASE []\nWHY the module cannot be imported: {type(e).__name__}: {e}")
        sys.exit(10)
    if mode == "case":
        w = run_case(json.loads(sys.argv[3]))
        if w:
            print(w)
            sys.stdout.flush()
            os._exit(10)
        os._exit(0)
    seed, secs, cur = int(sys.argv[3]), float(sys.argv[4]), sys.argv[5]
    r, n, end = random.Random(seed), 0, time.time() + secs
    gc.disable()
    while n < len(FIXED) or time.time() < end:
        steps = FIXED[n] if n < len(FIXED) else gen(r)
        t = json.dumps(steps, separators=(",", ":"))
        with open(cur, "w") as f:
            f.write(f"{len(t):010d}{t}")
        w = run_case(steps)
        n += 1
        if w:
            # fewer steps, as long as it fails
            for _ in range(2):
                for i in range(len(steps) - 1, -1, -1):
                    less = steps[:i] + steps[i + 1:]
                    t2 = json.dumps(less, separators=(",", ":"))
                    with open(cur, "w") as f:
                        f.write(f"{len(t2):010d}{t2}")
                    w2 = run_case(less)
                    if w2:
                        steps, w = less, w2
            print(f"TRIED {n}\nCASE {json.dumps(steps, separators=(',', ':'))}\nWHY {w}".replace("\n ", " "))
            sys.stdout.flush()
            os._exit(10)
    print(f"TRIED {n}")
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
