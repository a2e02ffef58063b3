#!/usr/bin/env python3
"""pyx.py PYFILE CLIB OUT.rs REPORT.json: the methods of the Python wrapper as Rust text over the C interface.

Every method of the table below is translated, statement by statement and in evaluation order, from the file's
syntax tree: Python ints are i128, exceptions are Err, `_lib.f(..)` is the function f of the C interface with the
conversions its declared argtypes and restype make. What has no translation makes the method unreached (the
report names it); nothing is guessed. See DESIGN.md, "The Python wrapper"."""
import ast, ctypes, json, re, sys

INT, BOOL, FLOAT, STR, OPTSTR, BYTES, NONE, PYSTR = "int", "bool", "float", "str", "optstr", "bytes", "none", "pystr"
LIST, BYTESOBJ = "list", "bytesobj"  # a list of ints, a bytes-like object: arguments
def opt(t): return ("opt", t)
def H(n): return ("h", n)
def PTR(n): return ("p", n)
def OBJ(n): return ("obj", n)

# class -> (Rust name, fields, methods: name -> (argument types, result type, receiver))
def lists(elem, item, free):
    return {"__init__": ([PTR(elem), INT], None, ""), "__del__": ([], NONE, "&self"), "__getitem__": ([INT], item, "&self"),
            "__iter__": ([], None, "&self"), "__len__": ([], INT, "&self")}
EDGE, VERT, ENT = ("tuple", (INT, INT)), INT, ("tuple", (FLOAT, INT, INT))
def graph_common(h, obj):
    return {"__del__": ([], NONE, "&self"), "__bytes__": ([], BYTES, "&self"), "from_bytes": ([BYTESOBJ], OBJ(obj), ""),
            "duplicate": ([], OBJ(obj), "&self"), "matrix_string": ([], STR, "&self"), "is_undirected": ([], BOOL, "&self"),
            "vertex_count": ([], INT, "&self"), "edge_count": ([], INT, "&self"), "does_edge_exist": ([INT, INT], BOOL, "&self")}
TABLE = {
    "Graph": ("PyGraph", [("_graph", H("GphrxGraph"))], {
        "__init__": ([BOOL, opt(H("GphrxGraph"))], None, ""), **graph_common("GphrxGraph", "PyGraph"),
        "add_vertex": ([INT, opt(LIST)], NONE, "&self"), "add_edge": ([INT, INT], NONE, "&self"), "delete_edge": ([INT, INT], NONE, "&self"),
        "find_avg_pool_matrix": ([INT], OBJ("PyCsrSquareMatrix"), "&self"), "approximate": ([INT, FLOAT], OBJ("PyGraph"), "&self"),
        "compress": ([INT], OBJ("PyCompressedGraph"), "&self"), "edge_list": ([], OBJ("PyGraphEdgeList"), "&self"),
        "vertex_in_edges": ([INT], OBJ("PyGraphVertexList"), "&self"), "vertex_out_edges": ([INT], OBJ("PyGraphVertexList"), "&self"),
        "vertex_in_degree": ([INT], INT, "&self"), "vertex_out_degree": ([INT], INT, "&self")}),
    "_GraphEdgeList": ("PyGraphEdgeList", [("_ptr", PTR("GphrxGraphEdge")), ("_size", INT)], lists("GphrxGraphEdge", EDGE, "edge")),
    "_GraphEdgeListIterator": ("PyGraphEdgeListIterator", [("_ptr", PTR("GphrxGraphEdge")), ("_size", INT), ("_pos", INT), ("_list_ref", OBJ("PyGraphEdgeList"))],
        {"__init__": ([PTR("GphrxGraphEdge"), INT, OBJ("PyGraphEdgeList")], None, ""), "__next__": ([], EDGE, "&mut self")}),
    "_GraphVertexList": ("PyGraphVertexList", [("_ptr", PTR("GphrxGraphVertex")), ("_size", INT)], lists("GphrxGraphVertex", VERT, "vertex")),
    "_GraphVertexListIterator": ("PyGraphVertexListIterator", [("_ptr", PTR("GphrxGraphVertex")), ("_size", INT), ("_pos", INT), ("_list_ref", OBJ("PyGraphVertexList"))],
        {"__init__": ([PTR("GphrxGraphVertex"), INT, OBJ("PyGraphVertexList")], None, ""), "__next__": ([], VERT, "&mut self")}),
    "CompressedGraph": ("PyCompressedGraph", [("_graph", H("GphrxCompressedGraph"))], {
        "__init__": ([H("GphrxCompressedGraph")], None, ""), **graph_common("GphrxCompressedGraph", "PyCompressedGraph"),
        "decompress": ([], OBJ("PyGraph"), "&self"), "compression_level": ([], FLOAT, "&self"), "get_compressed_matrix_entry": ([INT, INT], INT, "&self")}),
    "CsrSquareMatrix": ("PyCsrSquareMatrix", [("_matrix", H("GphrxCsrSquareMatrix"))], {
        "__init__": ([H("GphrxCsrSquareMatrix")], None, ""), "__del__": ([], NONE, "&self"), "__str__": ([], STR, "&self"),
        "duplicate": ([], OBJ("PyCsrSquareMatrix"), "&self"), "dimension": ([], INT, "&self"), "entry_count": ([], INT, "&self"),
        "get_entry": ([INT, INT], FLOAT, "&self"), "to_string": ([INT], STR, "&self"), "entry_list": ([], OBJ("PyCsrSquareMatrixEntryList"), "&self")}),
    "_CsrSquareMatrixEntryList": ("PyCsrSquareMatrixEntryList", [("_ptr", PTR("GphrxMatrixEntry")), ("_size", INT)], lists("GphrxMatrixEntry", ENT, "entry")),
    "_CsrSquareMatrixEntryListIterator": ("PyCsrSquareMatrixEntryListIterator",
        [("_ptr", PTR("GphrxMatrixEntry")), ("_size", INT), ("_pos", INT), ("_list_ref", OBJ("PyCsrSquareMatrixEntryList"))],
        {"__init__": ([PTR("GphrxMatrixEntry"), INT, OBJ("PyCsrSquareMatrixEntryList")], None, ""), "__next__": ([], ENT, "&mut self")}),
}
for c, (r, f, ms) in TABLE.items():
    a, _, k = ms["__init__"]
    ms["__init__"] = (a, OBJ(r), k)
    if "__iter__" in ms:
        ms["__iter__"] = ([], OBJ(r + "Iterator"), "&self")
RUST = {r: c for c, (r, _, _) in TABLE.items()}
# extra functions: a call with the defaults of the signature
DEFAULTS = [("Graph", "__init__", 0), ("Graph", "__init__", 1), ("Graph", "add_vertex", 1), ("CsrSquareMatrix", "to_string", 0)]
EXCS = ["TypeError", "ValueError", "IndexError", "StopIteration", "AttributeError", "ZeroDivisionError", "KeyError", "OverflowError", "RuntimeError", "MemoryError", "BufferError"]
CINT = {"c_uint8": ("u", 8), "c_ubyte": ("u", 8), "c_int8": ("i", 8), "c_byte": ("i", 8), "c_uint16": ("u", 16), "c_ushort": ("u", 16), "c_int16": ("i", 16),
        "c_short": ("i", 16), "c_uint32": ("u", 32), "c_uint": ("u", 32), "c_int32": ("i", 32), "c_int": ("i", 32), "c_uint64": ("u", 64), "c_ulong": ("u", 64),
        "c_ulonglong": ("u", 64), "c_size_t": ("u", 64), "c_int64": ("i", 64), "c_long": ("i", 64), "c_longlong": ("i", 64), "c_ssize_t": ("i", 64)}
RINT = {"u8": ("u", 8), "i8": ("i", 8), "u16": ("u", 16), "i16": ("i", 16), "u32": ("u", 32), "i32": ("i", 32), "u64": ("u", 64), "i64": ("i", 64), "usize": ("u", 64), "isize": ("i", 64)}


# values that are known while translating
STATIC = ("arrtype", "cls", "fn", "lib", "ctype", "enumcls", "enum", "mod", "cells", "libfn", "bound", "typeof", "builtin", "meth", "choice")


class No(Exception):
    """has no translation"""


def rust_type(t):
    if t == INT: return "i128"
    if t == BOOL: return "bool"
    if t == FLOAT: return "f64"
    if t == STR: return "String"
    if t == OPTSTR: return "Option<String>"
    if t == BYTES: return "Vec<u8>"
    if t in (NONE, PYSTR): return "()"
    if t == LIST: return "&[i128]"
    if t == BYTESOBJ: return "&[u8]"
    k = t[0]
    if k == "opt": return f"Option<{rust_type(t[1])}>"
    if k in ("h", "item", "obj"): return t[1]
    if k in ("p", "addr", "cell", "ref"): return f"*mut {'ffi::c_char' if t[1] == 'c_char' else t[1]}"
    if k == "carr": return f"*const {t[1]}"
    if k == "tuple": return "(" + "".join(rust_type(x) + ", " for x in t[1]) + ")"
    if k == "vec": return f"Vec<{t[1]}>"
    raise No(f"a value of type {t}")


class V:
    def __init__(s, t, code="", const=None):
        s.t, s.code, s.const = t, code, const


def terminates(b):
    if not b: return False
    x = b[-1]
    if isinstance(x, (ast.Return, ast.Raise)): return True
    if isinstance(x, ast.If): return terminates(x.body) and terminates(x.orelse)
    if isinstance(x, ast.Try): return terminates(x.body) or terminates(x.finalbody)
    return False


def nest(b):
    """`if c: .. return` followed by more: the rest becomes the else branch"""
    for i, x in enumerate(b):
        if isinstance(x, ast.If) and b[i + 1:]:
            if terminates(x.body):
                return b[:i] + [ast.If(x.test, x.body, x.orelse + b[i + 1:])]
            if x.orelse and terminates(x.orelse):
                return b[:i] + [ast.If(x.test, x.body + b[i + 1:], x.orelse)]
        if terminates([x]):
            return b[:i + 1]
    return b


def declarations(py):
    """the C functions the module declares, with the types it gives them: the module is run with a library
    whose functions only take note; None if that cannot be done"""
    class Fn:
        argtypes, restype = None, ctypes.c_int
    class Lib:
        def __init__(s, *a, **k): s.__dict__["fs"] = fs
        def __getattr__(s, n):
            if n.startswith("__"): raise AttributeError(n)
            return fs.setdefault(n, Fn())
        __getitem__ = __getattr__
    fs = {}
    real, dll = ctypes.CDLL, ctypes.cdll._dlltype
    ctypes.CDLL = ctypes.cdll._dlltype = Lib
    try:
        src = open(py, encoding="utf-8").read()
        exec(compile(src, py, "exec"), {"__name__": "graphrox", "__file__": py})
    except Exception:
        return None
    finally:
        ctypes.CDLL, ctypes.cdll._dlltype = real, dll
    return fs


class File:
    def __init__(s, py, clib):
        s.tree = ast.parse(open(py, encoding="utf-8").read(), py)
        s.classes, s.funcs, s.consts, s.ctypes_names = {}, {}, {}, {}
        s.structs, s.args, s.rets = {}, {}, {}
        s.ctypes_mods = set()
        for n in s.tree.body:
            if isinstance(n, ast.ClassDef): s.classes[n.name] = n
            elif isinstance(n, ast.FunctionDef): s.funcs[n.name] = n
            elif isinstance(n, ast.Import):
                for a in n.names:
                    if a.name == "ctypes": s.ctypes_mods.add(a.asname or a.name)
            elif isinstance(n, ast.ImportFrom) and n.module == "ctypes":
                for a in n.names: s.ctypes_names[a.asname or a.name] = a.name
            elif isinstance(n, ast.Assign) and len(n.targets) == 1:
                t = n.targets[0]
                if isinstance(t, ast.Name):
                    s.consts[t.id] = n.value
                elif isinstance(t, ast.Attribute) and isinstance(t.value, ast.Attribute) and isinstance(t.value.value, ast.Name) and t.value.value.id == "_lib":
                    (s.args if t.attr == "argtypes" else s.rets if t.attr == "restype" else {})[t.value.attr] = n.value
        for c in s.classes.values():
            for n in c.body:
                if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id == "_fields_":
                    fs = []
                    for e in n.value.elts:
                        fs.append((e.elts[0].value, s.ctype(e.elts[1])))
                    s.structs[c.name] = fs
        s.run = declarations(py)
        # the C library
        t = open(clib, encoding="utf-8").read()
        t = re.sub(r"//[^\n]*", "", t)
        alias = dict(re.findall(r"\btype\s+(\w+)\s*=\s*([\w:]+)\s*;", t))
        def ty(x):
            x = re.sub(r"\s+", " ", x.strip()).replace("ffi::", "").replace("std::", "").replace("os::raw::", "")
            return alias.get(x, x)
        s.cfn, s.cstruct = {}, {}
        for m in re.finditer(r'extern\s*"C"\s*fn\s+(\w+)\s*\(([^)]*)\)\s*(?:->\s*([^{]+?))?\s*\{', t):
            ps = [ty(a.split(":", 1)[1]) for a in m.group(2).split(",") if ":" in a]
            s.cfn[m.group(1)] = (ps, ty(m.group(3)) if m.group(3) else None)
        for m in re.finditer(r"pub\s+struct\s+(\w+)\s*\{([^}]*)\}", t):
            s.cstruct[m.group(1)] = [(a, ty(b)) for a, b in re.findall(r"(\w+)\s*:\s*([^,}]+)", m.group(2))]

    def ctype(s, n):
        """a ctypes type: 'c_uint64', ('ptr', T), ('struct', name), None"""
        if isinstance(n, ast.Constant) and n.value is None: return None
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id in s.ctypes_mods: return n.attr
        if isinstance(n, ast.Name):
            if n.id in s.ctypes_names: return s.ctypes_names[n.id]
            if n.id in s.classes: return ("struct", n.id)
            if n.id in s.consts: return s.ctype(s.consts[n.id])
        if isinstance(n, ast.Call) and s.ctype(n.func) == "POINTER" and len(n.args) == 1: return ("ptr", s.ctype(n.args[0]))
        raise No(f"a ctypes type ({ast.unparse(n)})")

    def declared(s, f):
        """(argtypes, restype) as the module leaves them, or None"""
        if s.run is None: return None
        g = s.run.get(f)
        return (g.argtypes, g.restype) if g is not None else (None, ctypes.c_int)

    def named(s, t):
        """a ctypes type as ctype() gives it"""
        if t is None: return None
        if isinstance(t, type) and issubclass(t, ctypes.Structure): return ("struct", t.__name__)
        if isinstance(t, type) and issubclass(t, ctypes._Pointer): return ("ptr", s.named(t._type_))
        if isinstance(t, type) and issubclass(t, ctypes._SimpleCData) and t.__name__.startswith("c_"): return t.__name__
        raise No(f"a ctypes type ({t})")

    def argtypes(s, f):
        d = s.declared(f)
        if d is not None: return None if d[0] is None else [s.named(t) for t in d[0]]
        n = s.args.get(f)
        if n is None or isinstance(n, ast.Constant) and n.value is None: return None
        if isinstance(n, ast.Name) and n.id in s.consts: n = s.consts[n.id]
        if isinstance(n, (ast.List, ast.Tuple)): return [s.ctype(e) for e in n.elts]
        raise No(f"the argtypes of {f}")

    def restype(s, f):
        d = s.declared(f)
        if d is not None: return s.named(d[1])
        n = s.rets.get(f)
        return "c_int" if n is None else s.ctype(n)

    def layout(s, pyname, rname):
        """[(python field, rust field or None)] of a structure, by position"""
        a, b = s.structs.get(pyname), s.cstruct.get(rname)
        if a is None or b is None: return None
        out = []
        for i, (n, t) in enumerate(a):
            r = b[i] if i < len(b) else (None, None)
            size = 8 if t in ("c_double", "c_void_p") or isinstance(t, tuple) else CINT.get(t, ("", 0))[1] // 8
            if size != 8: return None  # every field of these structures has 8 bytes
            same = r[1] is not None and (r[1] == "f64" and t == "c_double" or t in CINT and RINT.get(r[1]) == CINT[t] or r[1].startswith("*") and t == "c_void_p")
            out.append((n, t, r[0] if same else None))
        return out if len(a) == len(b) else None

    def rust_struct(s, pyname):
        n = pyname.strip("_")
        n = n[:-2] if n.endswith("_c") else n
        return n if n in s.cstruct else None

    def mro(s, cname):
        out, todo = [], [cname]
        while todo:
            c = todo.pop(0)
            if c in s.classes and c not in out:
                out.append(c)
                todo += [b.id for b in s.classes[c].bases if isinstance(b, ast.Name)]
        return out

    def method(s, cname, m):
        for c in s.mro(cname):
            for n in s.classes[c].body:
                if isinstance(n, ast.FunctionDef) and n.name == m: return c, n
        return None, None

    def class_attr(s, cname, a):
        for c in s.mro(cname):
            for n in s.classes[c].body:
                if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id == a: return n.value
        return None


class Fn:
    """the translation of one method"""
    def __init__(s, file, cname, fields):
        s.f, s.cname, s.fields = file, cname, fields
        s.vars, s.order, s.n, s.fin = {}, [], 0, []
        s.init, s.attrs = False, {}
        s.depth = 0

    def tmp(s):
        s.n += 1
        return f"gy_t{s.n}"

    def let(s, out, code):
        t = s.tmp()
        out.append(f"let {t} = {code};")
        return t

    # ----- leaving -----
    def leave(s, out, stmt):
        fins, s.fin = s.fin, []
        for i in range(len(fins) - 1, -1, -1):
            s.fin = fins[:i]
            body, env = fins[i]
            s.block(body, dict(env), out, None)
        s.fin = fins
        out.append(stmt)

    def fail(s, out, exc):
        s.leave(out, f"return Err(PyExc::{exc});")

    def take(s, out, code):
        """the value of a Result, or leave"""
        t = s.tmp()
        o = []
        s.leave(o, "return Err(gx_e);")
        out.append(f"let {t} = match {code} {{ Ok(gx_v) => gx_v, Err(gx_e) => {{ {' '.join(o)} }} }};")
        return t

    # ----- types -----
    def convert(s, v, t, out):
        """v as an argument of declared type t"""
        if v.t == t: return "*self" if v.code == "self" else v.code
        if t[0] == "opt":
            if v.t == NONE: return "None"
            return f"Some({s.convert(v, t[1], out)})"
        if v.t[0] == "opt" and v.t[1] == t: return s.some(v, out).code
        if t == BOOL and v.t in (INT, BOOL): return s.truth(v)
        if t == INT and v.t == BOOL: return f"(if {v.code} {{ 1i128 }} else {{ 0i128 }})"
        if t == FLOAT and v.t == INT: return f"py_float({v.code})"
        # another kind of value: what happens is not known
        s.leave(out, "return Err(py_unknown());")
        return "py_unknown()"

    def some(s, v, out):
        """the value, which is not None; None raises TypeError"""
        if v.t[0] == "opt":
            t = s.tmp()
            o = []
            s.fail(o, "TypeError")
            out.append(f"let {t} = match {v.code} {{ Some(gx_v) => gx_v, None => {{ {' '.join(o)} }} }};")
            return V(v.t[1], t)
        return v

    def truth(s, v):
        if v.t == BOOL: return v.code
        if v.t == INT: return f"({v.code} != 0)"
        if v.t == NONE: return "false"
        if v.t == LIST: return f"({v.code}.len() != 0)"
        if v.t in (BYTES, BYTESOBJ): return f"({v.code}.len() != 0)"
        if v.t[0] == "opt":
            if v.t[1] == LIST: return f"py_some_nonempty({v.code})"
            if v.t[1][0] in ("h",): return f"{v.code}.is_some()"
        if v.t == OPTSTR: raise No("the truth of a string")
        if v.t[0] in ("p", "addr"): return f"!GxPtr::gx_is_null({v.code})"
        if v.t[0] == "h": return "true"
        raise No(f"the truth of a value of type {v.t}")

    def isnone(s, v):
        if v.t == NONE: return "true"
        if v.t[0] == "opt" or v.t == OPTSTR: return f"{v.code}.is_none()"
        if v.t[0] == "addr": return f"GxPtr::gx_is_null({v.code})"
        return "false"

    # ----- names -----
    def var(s, name, t, env):
        key = (name, t)
        if key not in s.vars:
            s.vars[key] = f"l_{name}" if not any(k[0] == name for k in s.vars) else f"l_{name}_{len(s.vars)}"
            s.order.append((s.vars[key], t))
        env[name] = V(t, s.vars[key])
        return s.vars[key]

    def assign(s, name, v, env, out):
        if v.t == PYSTR or v.t[0] in STATIC:
            env[name] = v  # known while translating
            return
        if isinstance(v.t, tuple) and v.t[0] == "mixed": raise No("a value of two types")
        out.append(f"{s.var(name, v.t, env)} = {v.code};")

    # ----- statements -----
    def block(s, body, env, out, ret):
        """ret(value, out): what `return` does; None: it may not occur"""
        body = nest(body)
        for st in body:
            s.stmt(st, env, out, ret, st is body[-1])

    def stmt(s, n, env, out, ret, last):
        if isinstance(n, ast.Pass): return
        if isinstance(n, ast.Expr):
            if isinstance(n.value, ast.Constant): return
            s.expr(n.value, env, out)
            return
        if isinstance(n, (ast.Assign, ast.AnnAssign)):
            if isinstance(n, ast.Assign) and len(n.targets) != 1: raise No("a chained assignment")
            t = n.targets[0] if isinstance(n, ast.Assign) else n.target
            if n.value is None: return
            if isinstance(t, ast.Tuple) and isinstance(n.value, ast.Tuple) and len(t.elts) == len(n.value.elts) and not any(isinstance(x, ast.Starred) for x in t.elts + n.value.elts):
                vs = [s.expr(x, env, out) for x in n.value.elts]
                vs = [v if v.t == PYSTR or v.t == NONE or v.t[0] in STATIC else V(v.t, s.let(out, v.code), v.const) for v in vs]
                for x, v in zip(t.elts, vs): s.store(x, v, env, out)
                return
            v = s.expr(n.value, env, out)
            s.store(t, v, env, out)
            return
        if isinstance(n, ast.AugAssign):
            v = s.binop(s.expr(n.target, env, out), n.op, s.expr(n.value, env, out), out)
            s.store(n.target, v, env, out)
            return
        if isinstance(n, ast.Return):
            if ret is None: raise No("a return here")
            v = s.expr(n.value, env, out) if n.value is not None else V(NONE, "()")
            ret(v, out)
            return
        if isinstance(n, ast.Raise):
            x = n.exc
            if x is None: raise No("a bare raise")
            if isinstance(x, ast.Call):
                for a in x.args: s.expr(a, env, out)
                x = x.func
            if not isinstance(x, ast.Name): raise No("what is raised")
            s.fail(out, x.id if x.id in EXCS else "Other")
            return
        if isinstance(n, ast.If):
            c = s.cond(n.test, env, out)
            e1, e2, o1, o2 = dict(env), dict(env), [], []
            if c != "false": s.block(n.body, e1, o1, ret)
            if c != "true": s.block(n.orelse, e2, o2, ret)
            if c == "true": out += o1
            elif c == "false": out += o2
            else: out.append(f"if {c} {{ {' '.join(o1)} }}" + (f" else {{ {' '.join(o2)} }}" if o2 else ""))
            t1, t2 = terminates(n.body) or c == "false", terminates(n.orelse) or c == "true"
            for k in set(e1) | set(e2):
                a, b = e1.get(k), e2.get(k)
                if t1: a = b
                if t2 and not t1: b = a
                if a is None: a = b
                if b is None: b = a
                if a is None: continue
                if (a.t, a.code) == (b.t, b.code): env[k] = a
                elif a.t == b.t and a.const is None and b.const is None: env[k] = a if a.code == b.code else V(("mixed",))
                else: env[k] = V(("mixed",))
            return
        if isinstance(n, ast.Assert):
            c = s.cond(n.test, env, out)
            o = []
            s.fail(o, "Other")
            out.append(f"if !({c}) {{ {' '.join(o)} }}")
            return
        if isinstance(n, ast.Try) and not n.handlers and not n.orelse:
            s.fin.append((n.finalbody, env))
            if ret is None:
                s.block(n.body, env, out, None)
            else:
                def r(v, o):
                    t = s.let(o, v.code) if not (v.t == NONE or v.t == PYSTR) else v.code
                    fin = s.fin.pop()
                    s.block(fin[0], dict(env), o, None)
                    ret(V(v.t, t), o)
                    s.fin.append(fin)
                s.block(n.body, env, out, r)
            s.fin.pop()
            if not terminates(n.body): s.block(n.finalbody, env, out, ret)
            return
        if isinstance(n, ast.Delete):
            for t in n.targets:
                if not isinstance(t, ast.Name): raise No("a del")
            return
        raise No(f"a {type(n).__name__} statement")

    def store(s, t, v, env, out):
        if isinstance(t, ast.Name):
            s.assign(t.id, v, env, out)
        elif isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and env.get(t.value.id) is not None and env[t.value.id].code == "self":
            if s.init:
                if v.t[0] == "opt":  # not None here, or what follows is not known
                    x, w = [], s.tmp()
                    s.leave(x, "return Err(py_unknown());")
                    out.append(f"let {w} = match {v.code} {{ Some(gx_v) => gx_v, None => {{ {' '.join(x)} }} }};")
                    v = V(v.t[1], w)
                s.attrs.setdefault(t.attr, v.t)
                if s.attrs[t.attr] != v.t: raise No(f"the type of self.{t.attr}")
                e = {}
                out.append(f"{s.var('self_' + t.attr, v.t, e)} = {v.code};")
            else:
                f = s.field(t.attr)
                if f is None: raise No(f"an assignment of self.{t.attr}")
                if not s.mutable: raise No(f"an assignment of self.{t.attr}")
                out.append(f"self.{f[0]} = {s.convert(v, f[1], out)};")
        elif isinstance(t, ast.Tuple) and v.t[0] == "tuple" and len(t.elts) == len(v.t[1]):
            c = s.let(out, v.code)
            for i, x in enumerate(t.elts): s.store(x, V(v.t[1][i], f"{c}.{i}"), env, out)
        elif isinstance(t, ast.Attribute) and t.attr == "value":
            o = s.expr(t.value, env, out)
            if o.t[0] != "cell" or v.t != INT: raise No("an assignment")
            out.append(f"py_cell_set({o.code}, py_{o.t[1]}({v.code}), Tracked(&mut *gx_h));")
        else:
            raise No("an assignment")

    def field(s, attr, cname=None):
        m = s.fields.get(cname or s.cname, {})
        return m.get(attr)

    def cond(s, n, env, out):
        v = s.expr(n, env, out)
        if v.const is True: return "true"
        if v.const is False: return "false"
        return s.truth(v)

    # ----- expressions -----
    def expr(s, n, env, out):
        k = getattr(s, "e_" + type(n).__name__, None)
        if k is None: raise No(f"a {type(n).__name__} expression")
        v = k(n, env, out)
        if v.t == ("mixed",): raise No("a value of two types")
        return v

    def e_Constant(s, n, env, out):
        v = n.value
        if v is None: return V(NONE, "()")
        if v is True or v is False: return V(BOOL, "true" if v else "false", v)
        if isinstance(v, int):
            if not -(1 << 126) < v < 1 << 126: raise No("a large number")
            return V(INT, f"{v}i128" if v >= 0 else f"(-{-v}i128)", v)
        if isinstance(v, float): return V(FLOAT, f"{v!r}f64")
        if isinstance(v, str): return V(PYSTR, "()", v)
        raise No(f"a constant ({v!r})")

    def e_JoinedStr(s, n, env, out):
        for x in n.values:
            if isinstance(x, ast.FormattedValue): s.expr(x.value, env, out)
        return V(PYSTR, "()")

    def e_Name(s, n, env, out):
        i = n.id
        if i in env: return env[i]
        if i == "_lib": return V(("lib",))
        if i in s.f.ctypes_mods: return V(("mod", "ctypes"))
        if i in s.f.ctypes_names: return V(("ctype", s.f.ctypes_names[i]))
        if i in s.f.classes:
            bases = [b.attr if isinstance(b, ast.Attribute) else getattr(b, "id", "") for b in s.f.classes[i].bases]
            return V(("enumcls" if any("Enum" in b for b in bases) else "cls", i))
        if i in s.f.funcs: return V(("fn", i, None))
        if i in s.f.consts: return s.static(s.f.consts[i], out)
        if i in ("int", "bool", "float", "bytes", "str", "len", "abs", "max", "min", "isinstance", "hasattr", "type", "bytearray", "tuple", "super", "getattr", "list"):
            return V(("builtin", i))
        raise No(f"the name {i}")

    def static(s, n, out):
        if isinstance(n, (ast.Constant, ast.Attribute, ast.Name, ast.UnaryOp, ast.BinOp)): return s.expr(n, {}, out)
        try:
            return V(("ctype", s.f.ctype(n)))
        except No:
            raise No(f"the value of {ast.unparse(n)}")

    def e_Attribute(s, n, env, out):
        o = s.expr(n.value, env, out)
        a = n.attr
        if o.t[0] == "lib": return V(("libfn", a))
        if o.t == ("mod", "ctypes"): return V(("ctype", a))
        if o.t[0] == "enumcls":
            c = s.f.class_attr(o.t[1], a)
            if c is None: raise No(f"{o.t[1]}.{a}")
            if not isinstance(c, ast.Constant) or not isinstance(c.value, int): raise No("an enumeration of other values")
            return V(("enum", o.t[1], c.value))
        if o.t[0] == "enum":
            if a == "value": return s.e_Constant(ast.Constant(o.t[2]), env, out)
            raise No("an attribute of an enumeration")
        if a == "__name__" and o.t[0] in ("cls", "enumcls", "typeof"): return V(PYSTR, "()")
        if o.t[0] == "typeof":
            o = V(("cls", o.t[1]))
        if o.t[0] == "cls":
            c, m = s.f.method(o.t[1], a)
            if m is not None: return V(("bound", o.t[1], a, None))
            x = s.f.class_attr(o.t[1], a)
            if x is not None: return s.static(x, out)
            raise No(f"{o.t[1]}.{a}")
        o2 = s.some(o, out) if o.t[0] == "opt" else o
        if o2.t[0] == "obj":
            cn = RUST[o2.t[1]]
            if s.init and o2.code == "self":
                if a in s.attrs: return V(s.attrs[a], s.vars[("self_" + a, s.attrs[a])])
            else:
                f = s.field(a, cn)
                if f is not None: return V(f[1], f"{o2.code}.{f[0]}")
            c, m = s.f.method(cn, a)
            if m is not None:
                if any(isinstance(d, ast.Name) and d.id == "property" for d in m.decorator_list):
                    return s.inline(m, [o2], {}, out, cn)
                return V(("bound", cn, a, o2))
            x = s.f.class_attr(cn, a)
            if x is not None: return s.static(x, out)
            raise No(f"the attribute {a}")
        if o2.t[0] == "cell" and a == "value": return V(INT, s.let(out, f"py_cell_{o2.t[1]}({o2.code}, Tracked(&mut *gx_h))"))
        if o2.t[0] == "strp" and a == "value": return V(OPTSTR, s.let(out, f"py_c_str({o2.code}, Tracked(&mut *gx_h))"))
        if o2.t[0] == "p" and a == "contents":
            o = []
            s.fail(o, "ValueError")
            out.append(f"if GxPtr::gx_is_null({o2.code}) {{ {' '.join(o)} }}")
            return V(("contents", o2.t[1], o2.t[2] if len(o2.t) > 2 else None), o2.code)
        if o2.t[0] == "contents":
            v = V(("item", o2.t[1]), s.let(out, f"py_at({o2.code}, 0i128, Tracked(&mut *gx_h))"))
            return s.item_field(v, a)
        if o2.t[0] == "item": return s.item_field(o2, a)
        if o2.t in (STR, OPTSTR, PYSTR, BYTES, BYTESOBJ) or o2.t[0] in ("arrtype", "ctype", "vec"): return V(("meth", o2, a))
        if o2.t[0] == "h":
            raise No("a field of a handle")
        raise No(f"the attribute {a} of a value of type {o2.t}")

    def item_field(s, o, a):
        for py in s.f.structs:
            if s.f.rust_struct(py) == o.t[1]:
                l = s.f.layout(py, o.t[1])
                for x in l or ():
                    if x[0] == a:
                        if x[1] == "c_double": return V(FLOAT, f"{o.code}.{x[2]}" if x[2] else "py_unknown::<f64>()")
                        return V(INT, f"({o.code}.{x[2]} as i128)" if x[2] else "py_unknown::<i128>()")
                if l is not None: raise No(f"the field {a}")
        raise No(f"the structure {o.t[1]}")

    def e_Tuple(s, n, env, out):
        vs = [s.expr(x, env, out) for x in n.elts]
        return V(("tuple", tuple(v.t for v in vs)), "(" + "".join(v.code + ", " for v in vs) + ")")

    def e_UnaryOp(s, n, env, out):
        v = s.expr(n.operand, env, out)
        if isinstance(n.op, ast.Not):
            if v.const in (True, False): return V(BOOL, "false" if v.const else "true", not v.const)
            return V(BOOL, f"!({s.truth(v)})")
        v = s.some(v, out)
        if v.t != INT: raise No("an operator")
        if isinstance(n.op, ast.USub): return V(INT, f"(-{v.code})", -v.const if v.const is not None else None)
        if isinstance(n.op, ast.UAdd): return v
        raise No("an operator")

    def binop(s, a, op, b, out):
        if isinstance(op, ast.Mult) and a.t[0] == "ctype": return V(("arrtype", a.t[1], s.some(b, out).code))
        if a.t == PYSTR or b.t == PYSTR:
            if isinstance(op, ast.Add) and (a.t not in (PYSTR, STR) or b.t not in (PYSTR, STR)): s.fail(out, "TypeError")
            return V(PYSTR, "()")
        a, b = s.some(a, out), s.some(b, out)
        if a.t == BOOL: a = V(INT, s.convert(a, INT, out))
        if b.t == BOOL: b = V(INT, s.convert(b, INT, out))
        if a.t != INT or b.t != INT: raise No("an operator on other values")
        o = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^"}.get(type(op))
        if o: return V(INT, s.let(out, f"{a.code} {o} {b.code}"))
        f = {ast.Mod: "py_mod", ast.FloorDiv: "py_floordiv"}.get(type(op))
        if f:
            x = []
            s.fail(x, "ZeroDivisionError")
            out.append(f"if {b.code} == 0 {{ {' '.join(x)} }}")
            return V(INT, s.let(out, f"{f}({a.code}, {b.code})"))
        raise No("an operator")

    def e_BinOp(s, n, env, out):
        a = s.expr(n.left, env, out)
        return s.binop(a, n.op, s.expr(n.right, env, out), out)

    def e_BoolOp(s, n, env, out):
        isand = isinstance(n.op, ast.And)
        r = None
        vs = []
        v = s.expr(n.values[0], env, out)
        if v.const in (True, False):
            if v.const != isand: return v
            rest = n.values[1:]
            return s.expr(rest[0] if len(rest) == 1 else ast.BoolOp(n.op, rest), env, out)
        t = s.tmp()
        out.append(f"let mut {t} = {s.truth(v)};")
        for x in n.values[1:]:
            o = []
            y = s.expr(x, env, o)
            c = "true" if y.const is True else "false" if y.const is False else s.truth(y)
            out.append(f"if {'' if isand else '!'}{t} {{ {' '.join(o)} {t} = {c}; }}")
        return V(BOOL, t)

    def e_IfExp(s, n, env, out):
        c = s.cond(n.test, env, out)
        if c == "true": return s.expr(n.body, env, out)
        if c == "false": return s.expr(n.orelse, env, out)
        o1, o2 = [], []
        a, b = s.expr(n.body, dict(env), o1), s.expr(n.orelse, dict(env), o2)
        t = s.tmp()
        fns = ("libfn", "fn", "cls", "bound", "choice")
        if a.t[0] in fns and b.t[0] in fns:
            if a.t == b.t: return a
            if o1 or o2: raise No("a choice of functions")
            return V(("choice", s.let(out, c), a, b))
        if a.t[0] in STATIC or b.t[0] in STATIC: raise No("a choice of other things")
        if a.t != b.t:
            if a.t == NONE and b.t[0] in ("h", "carr") or b.t == NONE and a.t[0] in ("h", "carr"):
                ty = opt(b.t if a.t == NONE else a.t)
            elif a.t in (INT, BOOL) and b.t in (INT, BOOL): ty = INT
            else: raise No("a conditional of two types")
            a, b = V(ty, s.convert(a, ty, o1)), V(ty, s.convert(b, ty, o2))
        if a.t == PYSTR: return V(PYSTR, "()")
        s.order.append((t, a.t))
        out.append(f"if {c} {{ {' '.join(o1)} {t} = {a.code}; }} else {{ {' '.join(o2)} {t} = {b.code}; }}")
        return V(a.t, t)

    def e_Compare(s, n, env, out):
        l = s.expr(n.left, env, out)
        if len(n.ops) == 1:
            return s.compare(l, n.ops[0], s.expr(n.comparators[0], env, out), out)
        t = None
        for op, c in zip(n.ops, n.comparators):
            if t is None:
                r = s.expr(c, env, out)
                x = s.compare(l, op, r, out)
                t = s.tmp()
                out.append(f"let mut {t} = {s.truth(x)};")
            else:
                o = []
                r = s.expr(c, env, o)
                x = s.compare(l, op, r, o)
                out.append(f"if {t} {{ {' '.join(o)} {t} = {s.truth(x)}; }}")
            l = r
        return V(BOOL, t)

    def compare(s, a, op, b, out):
        if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)) and (a.t == NONE or b.t == NONE):
            c = s.isnone(b if a.t == NONE else a)
            neg = isinstance(op, (ast.IsNot, ast.NotEq))
            if c in ("true", "false"): return V(BOOL, "true" if (c == "true") != neg else "false", (c == "true") != neg)
            return V(BOOL, f"!({c})" if neg else c)
        if isinstance(op, (ast.Is, ast.IsNot)) and (a.t != BOOL or b.t != BOOL): raise No("a comparison of identities")
        if "enum" in (a.t[0], b.t[0]):
            bs = [x.attr if isinstance(x, ast.Attribute) else getattr(x, "id", "") for x in s.f.classes[a.t[1] if a.t[0] == "enum" else b.t[1]].bases]
            if "IntEnum" not in bs:
                if a.t[0] == b.t[0] or not isinstance(op, (ast.Eq, ast.NotEq)): raise No("a comparison of enumerations")
                v = isinstance(op, ast.NotEq)
                return V(BOOL, "true" if v else "false", v)
            a = s.e_Constant(ast.Constant(a.t[2]), {}, out) if a.t[0] == "enum" else a
            b = s.e_Constant(ast.Constant(b.t[2]), {}, out) if b.t[0] == "enum" else b
        a, b = s.some(a, out), s.some(b, out)
        if a.t == BOOL and b.t == INT: a = V(INT, s.convert(a, INT, out))
        if b.t == BOOL and a.t == INT: b = V(INT, s.convert(b, INT, out))
        if a.t != b.t or a.t not in (INT, BOOL): raise No(f"a comparison of {a.t} with {b.t}")
        o = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Is: "==", ast.IsNot: "!="}.get(type(op))
        if o is None or a.t == BOOL and o not in ("==", "!="): raise No("a comparison")
        return V(BOOL, f"({a.code} {o} {b.code})")

    def e_Subscript(s, n, env, out):
        o = s.expr(n.value, env, out)
        if o.t[0] == "opt": o = s.some(o, out)
        if o.t[0] == "p":
            if isinstance(n.slice, ast.Slice):
                sl = n.slice
                if sl.step is not None: raise No("a slice with a step")
                if sl.lower is not None:
                    lo = s.expr(sl.lower, env, out)
                    if lo.const != 0: raise No("a slice from elsewhere")
                if sl.upper is None: raise No("a slice without an end")
                hi = s.some(s.expr(sl.upper, env, out), out)
                if hi.t != INT: raise No("a slice")
                return V(("vec", o.t[1]), s.let(out, f"py_prefix({o.code}, {hi.code}, Tracked(&mut *gx_h))"))
            i = s.some(s.expr(n.slice, env, out), out)
            if i.t != INT: raise No("an index")
            x = []
            s.fail(x, "ValueError")
            out.append(f"if GxPtr::gx_is_null({o.code}) {{ {' '.join(x)} }}")
            t = s.let(out, f"py_at({o.code}, {i.code}, Tracked(&mut *gx_h))")
            if o.t[1] in RINT: return V(INT, f"({t} as i128)")
            return V(("item", o.t[1]), t)
        if o.t[0] == "obj":
            cn = RUST[o.t[1]]
            return s.call_method(cn, "__getitem__", o, [s.expr(n.slice, env, out)], {}, out)
        raise No("a subscript")

    # ----- calls -----
    def args_of(s, n, env, out):
        kw = {}
        a = []
        for x in n.args:
            if isinstance(x, ast.Starred):
                a.append(("*", s.expr(x.value, env, out)))
            else:
                a.append(s.expr(x, env, out))
        for k in n.keywords:
            if k.arg is None: raise No("**")
            kw[k.arg] = s.expr(k.value, env, out)
        return a, kw

    def e_Call(s, n, env, out):
        # super().__init__(..)
        if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Call) and isinstance(n.func.value.func, ast.Name) and n.func.value.func.id == "super":
            base = s.f.mro(s.here)[1:2]
            if not base: raise No("super()")
            c, m = s.f.method(base[0], n.func.attr)
            if m is None: raise No("super()")
            a, kw = s.args_of(n, env, out)
            return s.inline(m, [env["self"]] + a, kw, out, c)
        f = s.expr(n.func, env, out)
        k = f.t[0]
        if f.t == PYSTR:
            s.fail(out, "TypeError")  # a string is not callable
            return V(PYSTR, "()")
        if k == "builtin": return s.builtin(f.t[1], n, env, out)
        a, kw = s.args_of(n, env, out)
        return s.call(f, a, kw, out)

    def call(s, f, a, kw, out):
        k = f.t[0]
        if k == "choice":
            if any(isinstance(x, tuple) for x in a): raise No("*")
            fix = lambda v: v if v.t == PYSTR or v.t == NONE or v.t[0] in STATIC or v.code == "self" else V(v.t, s.let(out, v.code), v.const)
            a, kw = [fix(v) for v in a], {q: fix(v) for q, v in kw.items()}
            o1, o2 = [], []
            x, y = s.call(f.t[2], a, kw, o1), s.call(f.t[3], a, kw, o2)
            if x.t != y.t or x.t[0] in STATIC: raise No("a choice of functions with two result types")
            if x.t in (NONE, PYSTR):
                out.append(f"if {f.t[1]} {{ {' '.join(o1)} }} else {{ {' '.join(o2)} }}")
                return x
            t = s.tmp()
            s.order.append((t, x.t))
            out.append(f"if {f.t[1]} {{ {' '.join(o1)} {t} = {x.code}; }} else {{ {' '.join(o2)} {t} = {y.code}; }}")
            return V(x.t, t)
        if k == "typeof": f, k = V(("cls", f.t[1])), "cls"
        if k == "cls":
            if f.t[1] not in TABLE: raise No(f"a new {f.t[1]}")
            return s.call_method(f.t[1], "__init__", None, a, kw, out)
        if k == "bound": return s.call_method(f.t[1], f.t[2], f.t[3], a, kw, out)
        if k == "fn":
            return s.inline(s.f.funcs[f.t[1]], a, kw, out, None)
        if k == "libfn":
            if kw: raise No("keywords of a C function")
            return s.lib(f.t[1], a, out)
        if k == "ctype": return s.ctype_call(f.t[1], a, kw, out)
        if k == "arrtype": return s.array(f.t, a, out)
        if k == "meth":
            o, m = f.t[1], f.t[2]
            if o.t[0] == "arrtype" and m in ("from_buffer", "from_buffer_copy") and len(a) == 1 and a[0].t in (BYTESOBJ, BYTES):
                if o.t[1] not in CINT or CINT[o.t[1]] != ("u", 8): raise No("a buffer")
                b = a[0].code if a[0].t == BYTESOBJ else f"{a[0].code}.as_slice()"
                return V(("carr", "u8"), s.let(out, f"py_buffer({b}, {o.t[2]})"))
            if o.t in (OPTSTR, STR) and m == "decode":
                if a and (a[0].t != PYSTR or str(a[0].const).lower().replace("_", "-") not in ("utf-8", "utf8", "ascii")) or kw: raise No("an encoding")
                if o.t == STR: raise No("decode")
                t = s.tmp()
                x = []
                s.fail(x, "AttributeError")
                out.append(f"let {t} = match {o.code} {{ Some(gx_v) => gx_v, None => {{ {' '.join(x)} }} }};")
                return V(STR, t)
            if o.t == PYSTR: return V(PYSTR, "()")
            raise No(f"the method {m}")
        raise No("a call")

    def bind(s, m, a, kw, out, skip=0):
        """the arguments by parameter"""
        ar = m.args
        if ar.vararg or ar.kwarg or ar.posonlyargs: raise No("a signature")
        names = [x.arg for x in ar.args][skip:]
        vals = {}
        if len(a) > len(names): raise No("the number of arguments")
        for nme, v in zip(names, a):
            if isinstance(v, tuple): raise No("*")
            vals[nme] = v
        for k, v in kw.items():
            if k not in names + [x.arg for x in ar.kwonlyargs] or k in vals: raise No("an argument")
            vals[k] = v
        for nme, d in zip(reversed(names), reversed(ar.defaults)):
            if nme not in vals: vals[nme] = s.static(d, out)
        for x, d in zip(ar.kwonlyargs, ar.kw_defaults):
            if x.arg not in vals and d is not None: vals[x.arg] = s.static(d, out)
            names = names + [x.arg]
        for nme in names:
            if nme not in vals: raise No("a missing argument")
        return [(nme, vals[nme]) for nme in names]

    def kind(s, m):
        d = [x.id for x in m.decorator_list if isinstance(x, ast.Name)]
        if len(d) != len(m.decorator_list): raise No("a decorator")
        return "static" if "staticmethod" in d else "class" if "classmethod" in d else "property" if "property" in d else "plain" if not d else "?"

    def call_method(s, cn, name, obj, a, kw, out):
        c, m = s.f.method(cn, name)
        if m is None: raise No(f"{cn}.{name}")
        kd = s.kind(m)
        if kd == "?": raise No("a decorator")
        if obj is None and kd == "plain" and name != "__init__":  # Class.method(obj, ..)
            obj, a = a[0], a[1:]
        if cn in TABLE and name in TABLE[cn][2]:
            rn, _, ms = TABLE[cn]
            ats, rt, recv = ms[name]
            b = s.bind(m, a, kw, out, 0 if kd == "static" else 1)
            if len(b) != len(ats): raise No(f"the signature of {name}")
            args = [s.convert(v, t, out) for (_, v), t in zip(b, ats)]
            args = [s.let(out, x) for x in args] + ["Tracked(&mut *gx_h)"]
            pre = f"{rn}::{name}" if recv == "" else f"{obj.code}.{name}"
            if recv == "&mut self": raise No("a call that changes an object")
            t = s.take(out, f"{pre}({', '.join(args)})")
            return V(rt, t)
        if kd == "static": return s.inline(m, a, kw, out, c)
        if kd == "class": return s.inline(m, [V(("cls", cn))] + a, kw, out, c)
        return s.inline(m, [obj] + a, kw, out, c)

    def inline(s, m, a, kw, out, here):
        s.depth += 1
        if s.depth > 6: raise No("recursion")
        env = {}
        for name, v in s.bind(m, a, kw, out):
            if v.code == "self" or v.t == PYSTR or v.t[0] in STATIC:
                env[name] = v
            else:
                env[name] = V(v.t, s.let(out, v.code) if v.const is None and not re.fullmatch(r"gy_t\d+", v.code) else v.code, v.const)
        env = {k: v for k, v in env.items()}
        old, s.here = s.here, here or s.here
        # the callee's locals are its own
        names = {x.id for x in ast.walk(m) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        ren = {x: f"{x}_{s.tmp()[4:]}" for x in names}
        class R(ast.NodeTransformer):
            def visit_Name(self, n):
                return ast.copy_location(ast.Name(ren.get(n.id, n.id), n.ctx), n)
        body = [R().visit(x) for x in ast.parse(ast.unparse(m)).body[0].body]
        env = {ren.get(k, k): v for k, v in env.items()}
        for k in ren.values():
            if k in env and env[k].code != "self": s.assign(k, env[k], env, out)
        got = []
        res = s.tmp()
        def ret(v, o):
            got.append(v.t)
            if v.t == PYSTR or v.t == NONE: return
            if got[0] != v.t: raise No("a helper with two result types")
            o.append(f"{res} = {v.code};")
        s.tail(body, env, out, ret)
        s.here = old
        s.depth -= 1
        if not got or got[0] == NONE: return V(NONE, "()")
        if any(t != got[0] for t in got): raise No("a helper with two result types")
        if got[0] == PYSTR: return V(PYSTR, "()")
        s.order.append((res, got[0]))
        return V(got[0], res)

    def tail(s, body, env, out, ret):
        """every return is at the end of its path, once rests are nested"""
        def check(b, last):
            b = nest(b)
            for i, x in enumerate(b):
                end = last and i == len(b) - 1
                if isinstance(x, ast.Return) and not end: raise No("a return in the middle of a helper")
                if isinstance(x, ast.If):
                    check(x.body, end)
                    check(x.orelse, end)
                elif isinstance(x, (ast.Try, ast.With, ast.For, ast.While)):
                    for y in ast.walk(x):
                        if isinstance(y, ast.Return) and not end: raise No("a return in the middle of a helper")
        check(body, True)
        s.block(body, env, out, ret)

    def builtin(s, f, n, env, out):
        if f == "type":
            v = s.expr(n.args[0], env, out)
            if v.t[0] != "obj": raise No("a type")
            return V(("typeof", RUST[v.t[1]]))
        if f == "isinstance":
            v, c = s.expr(n.args[0], env, out), s.expr(n.args[1], env, out)
            if c.t[0] != "cls": raise No("isinstance")
            if v.t[0] == "opt": v = V(v.t[1], v.code)  # None is tested first
            if v.t[0] in ("h", "item", "contents"): r = s.f.rust_struct(c.t[1]) == v.t[1] and s.f.rust_struct(c.t[1]) is not None
            elif v.t[0] == "obj": r = c.t[1] in s.f.mro(RUST[v.t[1]])
            elif v.t in (INT, BOOL, FLOAT, LIST): r = False
            else: raise No("isinstance")
            return V(BOOL, "true" if r else "false", r)
        if f == "hasattr":
            v, c = s.expr(n.args[0], env, out), s.expr(n.args[1], env, out)
            if v.t[0] == "p" and c.const in ("contents", "_type_"): return V(BOOL, "true", True)
            if v.t[0] == "obj" and isinstance(c.const, str) and s.field(c.const, RUST[v.t[1]]) is not None: return V(BOOL, "true", True)
            raise No("hasattr")
        a, kw = s.args_of(n, env, out)
        if kw or any(isinstance(x, tuple) for x in a): raise No(f"{f}()")
        if f == "str": return V(PYSTR, "()") if a and a[0].t != STR else a[0]
        a = [s.some(x, out) for x in a]
        if f in ("max", "min") and len(a) >= 2 and all(x.t == INT for x in a):
            c = a[0].code
            for x in a[1:]: c = s.let(out, f"py_{f}({c}, {x.code})")
            return V(INT, c)
        if len(a) != 1: raise No(f"{f}()")
        v = a[0]
        if f == "int":
            if v.t == INT: return v
            if v.t == BOOL: return V(INT, s.convert(v, INT, out))
        if f == "bool":
            if v.t == PYSTR: raise No("bool")
            return V(BOOL, s.truth(v))
        if f == "float":
            if v.t == FLOAT: return v
            if v.t == INT: return V(FLOAT, s.let(out, f"py_float({v.code})"))
        if f == "abs" and v.t == INT: return V(INT, s.let(out, f"py_abs({v.code})"))
        if f == "len":
            if v.t in (LIST, BYTESOBJ, BYTES) or v.t[0] == "vec": return V(INT, f"({v.code}.len() as i128)")
            if v.t[0] == "obj": return s.call_method(RUST[v.t[1]], "__len__", v, [], {}, out)
        if f == "bytes":
            if v.t == ("vec", "u8"): return V(BYTES, v.code)
            if v.t in (BYTES, BYTESOBJ): return v
        if f == "bytearray" and v.t in (BYTESOBJ, BYTES): return v
        if f in ("tuple", "list") and v.t[0] == "tuple" and f == "tuple": return v
        if f in ("tuple", "list") and v.t == LIST: return v
        raise No(f"{f}() of a value of type {v.t}")

    def ctype_call(s, c, a, kw, out):
        if kw: raise No("keywords")
        if c == "byref" and len(a) == 1 or c in ("pointer", "addressof") and len(a) == 1:
            if a[0].t[0] != "cell": raise No("byref")
            if c == "addressof": raise No("addressof")
            return V(("ref", a[0].t[1]), a[0].code)
        if c == "cast" and len(a) == 2:
            if a[1].t == ("ctype", "c_char_p") and a[0].t in (("addr", "c_char"), ("p", "c_char")): return V(("strp",), a[0].code)
            raise No("a cast")
        if c == "string_at" and 1 <= len(a) <= 2:
            if len(a) == 1 and a[0].t == ("addr", "c_char"): return V(OPTSTR, s.let(out, f"py_string_at({a[0].code}, Tracked(&mut *gx_h))"))
            if len(a) == 2 and a[0].t in (("p", "u8"), ("addr", "u8")):
                return V(BYTES, s.let(out, f"py_prefix({a[0].code}, {s.some(a[1], out).code}, Tracked(&mut *gx_h))"))
            raise No("string_at")
        if c in CINT:
            k = {("u", 64): "usize", ("u", 8): "u8"}.get(CINT[c])
            if k is None or len(a) > 1: raise No(f"a {c}")
            v = s.some(a[0], out) if a else V(INT, "0i128")
            if v.t != INT: raise No(f"a {c}")
            return V(("cell", k), s.let(out, f"py_new_{k}(py_{k}({v.code}), Tracked(&mut *gx_h))"))
        if c == "POINTER": raise No("POINTER")
        raise No(f"ctypes.{c}")

    def array(s, t, a, out):
        if CINT.get(t[1]) == ("u", 64) and len(a) == 1 and isinstance(a[0], tuple):
            v = s.some(a[0][1], out)
            if v.t != LIST: raise No("an array")
            x = []
            s.fail(x, "IndexError")
            out.append(f"if {t[2]} < ({v.code}.len() as i128) {{ {' '.join(x)} }}")
            return V(("carr", "u64"), s.let(out, f"py_u64_array({v.code}, {t[2]})"))
        raise No("an array")

    # ----- the C library -----
    def lib(s, f, a, out):
        if f not in s.f.cfn: raise No(f"the C function {f}")
        rp, rr = s.f.cfn[f]
        at = s.f.argtypes(f)
        if any(isinstance(x, tuple) for x in a): raise No("*")
        args = []
        if len(a) != len(rp) or at is not None and len(at) != len(a):
            # too few: TypeError; too many: what the function then sees is not known
            s.leave(out, "return Err(py_unknown());")
            return V(NONE, "()") if rr is None else s.result(f, rr, "py_unknown()", out)
        for i, v in enumerate(a):
            args.append(s.arg(at[i] if at is not None else "default", v, rp[i], out))
        c = f"crate::capi::{f}({', '.join(args + ['Tracked(&mut *gx_h)'])})"
        return s.result(f, rr, c, out)

    def unknown(s, t):
        return f"py_unknown::<{'*' + t[1:] if t.startswith('*') else t}>()".replace("c_char", "ffi::c_char")

    def arg(s, d, v, r, out):
        if v.t[0] == "opt" and v.t[1][0] == "carr" and r == f"*const {v.t[1][1]}" and (d == "c_void_p" or isinstance(d, tuple) and d[0] == "ptr" and CINT.get(d[1]) == RINT.get(v.t[1][1])):
            return s.let(out, f"match {v.code} {{ Some(gx_v) => gx_v, None => py_null_const::<{v.t[1][1]}>() }}")
        v = s.some(v, out) if v.t[0] == "opt" else v
        bad = lambda: s.unknown(r)
        if d == "default":
            d = {INT: "c_int", BOOL: "c_int", FLOAT: "c_double"}.get(v.t, None)
            if v.t == FLOAT: raise No("an undeclared argument")
            if d is None:
                if v.t[0] == "h": d = ("struct", None)
                elif v.t[0] in ("p", "addr", "ref", "carr") or v.t == NONE: d = "c_void_p"
                else: raise No("an undeclared argument")
        if d in CINT:
            if r not in RINT: return bad()
            if v.t[0] == "cell":
                x = s.let(out, f"py_cell_{v.t[1]}({v.code}, Tracked(&mut *gx_h))")
                v = V(INT, x)
            if v.t == BOOL: v = V(INT, s.convert(v, INT, out))
            if v.t != INT:
                s.fail(out, "TypeError")
                return bad()
            (sg, w), (rs, rw) = CINT[d], RINT[r]
            if w >= rw: return f"py_{r}({v.code})"
            return f"py_{r}(py_{sg}{w}({v.code}) as i128)"
        if d == "c_double":
            if r != "f64": return bad()
            if v.t == INT: return f"py_float({v.code})"
            if v.t != FLOAT:
                s.fail(out, "TypeError")
                return bad()
            return v.code
        if isinstance(d, tuple) and d[0] == "struct":
            if v.t[0] != "h":
                s.fail(out, "TypeError")
                return bad()
            if d[1] is not None and (s.f.rust_struct(d[1]) != v.t[1]):
                s.fail(out, "TypeError")
                return bad()
            return v.code if r == v.t[1] and (d[1] is None or s.f.layout(d[1], r)) else bad()
        if d == "c_void_p" or isinstance(d, tuple) and d[0] == "ptr":
            m = re.fullmatch(r"\*(mut|const) (\w+)", r)
            if not m: return bad()
            if v.t == NONE: return f"py_null_{m.group(1)}::<{m.group(2).replace('c_char', 'ffi::c_char')}>()"
            if v.t[0] not in ("p", "addr", "ref", "carr"):
                s.fail(out, "TypeError")
                return bad()
            if isinstance(d, tuple):
                e = d[1]
                want = {("u", 64): ("u64", "usize"), ("u", 8): ("u8",)}.get(CINT.get(e)) if e in CINT else (s.f.rust_struct(e[1]),) if isinstance(e, tuple) else ()
                if v.t[0] == "addr" or v.t[1] not in want:
                    s.fail(out, "TypeError")
                    return bad()
            if v.t[1] != m.group(2): return bad()
            return v.code if (m.group(1) == "const") == (v.t[0] == "carr") else bad()
        raise No(f"the argument type {d}")

    def result(s, f, rr, c, out):
        d = s.f.restype(f)
        if rr is None:
            out.append(c + ";")
            if d is None: return V(NONE, "()")
            return V(INT, s.let(out, "py_unknown::<i128>()"))
        if d is None:
            s.let(out, c)
            return V(NONE, "()")
        t = s.let(out, c if c != "py_unknown()" else s.unknown(rr))
        if d in CINT or d == "c_bool":
            if rr not in RINT: return V(INT, "py_unknown::<i128>()")
            if d == "c_bool": return V(BOOL, f"({t} != 0)") if RINT[rr][1] == 8 else V(BOOL, "py_unknown::<bool>()")
            (sg, w), (rs, rw) = CINT[d], RINT[rr]
            if w > rw: return V(INT, "py_unknown::<i128>()")
            if (sg, w) == (rs, rw): return V(INT, f"({t} as i128)")
            return V(INT, f"(py_{sg}{w}({t} as i128) as i128)")
        if d == "c_double": return V(FLOAT, t) if rr == "f64" else V(FLOAT, "py_unknown::<f64>()")
        m = re.fullmatch(r"\*mut (\w+)", rr)
        if d == "c_void_p" and m: return V(("addr", m.group(1)), t)
        if isinstance(d, tuple) and d[0] == "ptr" and m:
            e = d[1]
            n = s.f.rust_struct(e[1]) if isinstance(e, tuple) else {("u", 8): "u8"}.get(CINT.get(e))
            if n == m.group(1) and (not isinstance(e, tuple) or s.f.layout(e[1], n) is not None): return V(("p", n), t)
        if isinstance(d, tuple) and d[0] == "struct":
            n = s.f.rust_struct(d[1])
            if n == rr and s.f.layout(d[1], n): return V(("h", n), t)
            raise No(f"the result type of {f}")
        raise No(f"the result type of {f}")


def fields_of(file, cname, attrs):
    """python attribute -> (field, type): by name, or, renamed, by type and order"""
    want = TABLE[cname][1]
    if {a for a in attrs if a in dict(want)} == set(attrs) and all(dict(want)[a] == t for a, t in attrs.items()):
        return {a: (a, t) for a, t in want if a in attrs}, [a for a, _ in want if a not in attrs]
    if [t for _, t in want] == list(attrs.values()):
        return {p: (f, t) for p, (f, t) in zip(attrs, want)}, []
    if len(attrs) != len(want): raise No(f"the attributes of {cname}")
    out, left = {}, list(want)
    for p, t in attrs.items():
        for w in left:
            if w[1] == t:
                out[p] = w
                left.remove(w)
                break
        else:
            raise No(f"the attributes of {cname}")
    return out, []


def translate(file, cname, name, fields, report):
    """(code, body text)"""
    rn, want, ms = TABLE[cname]
    ats, rt, recv = ms[name]
    c, m = file.method(cname, name)
    if m is None: return None
    fn = Fn(file, cname, fields)
    fn.here, fn.mutable, fn.init = c, recv == "&mut self", name == "__init__"
    kd = fn.kind(m)
    if m.args.vararg or m.args.kwarg or m.args.posonlyargs or m.args.kwonlyargs: raise No("the signature")
    ps = [a.arg for a in m.args.args]
    env = {}
    if kd == "static":
        if recv != "" or name == "__init__": raise No("the signature")
    elif kd == "class":
        if recv != "": raise No("the signature")
        env[ps[0]] = V(("cls", cname))
        ps = ps[1:]
    elif kd == "plain":
        if recv == "" and name != "__init__": raise No("the signature")
        env[ps[0]] = V(OBJ(rn), "self")
        ps = ps[1:]
    else:
        raise No("the signature")
    if len(ps) != len(ats): raise No("the signature")
    out = []
    for p, t in zip(ps, ats):
        if any(isinstance(x, ast.Name) and x.id == p and isinstance(x.ctx, ast.Store) for x in ast.walk(m)):
            fn.assign(p, V(t, f"a_{p}"), env, out)
        else:
            env[p] = V(t, f"a_{p}")
    def done(o):
        fm, missing = fields_of(file, cname, fn.attrs)
        inits = [f"{f}: {fn.vars[('self_' + p, t)]}" for p, (f, t) in fm.items()] + [f"{x}: py_unknown()" for x in missing]
        fields[cname] = fm
        o.append(f"return Ok({rn} {{ {', '.join(inits)} }});")
    def ret(v, o):
        if fn.init:
            if v.t != NONE: raise No("a value from __init__")
            done(o)
        elif v.t == rt: fn.leave(o, f"return Ok({v.code});")
        elif v.t == OPTSTR and rt == STR or v.t == PYSTR and rt == STR or rt == NONE and v.t in (INT, BOOL):
            raise No(f"the result of {name}")
        else: fn.leave(o, f"return Ok({'py_unknown()' if v.t != NONE or rt != NONE else '()'});")
    fn.block(m.body, env, out, ret)
    if not terminates(nest(m.body)):
        if fn.init: done(out)
        else: ret(V(NONE, "()"), out)
    if fn.init:
        fn.fields[cname] = fields[cname]
    decl = [f"let mut {v} = py_unset::<{rust_type(t)}>();" for v, t in dict(fn.order).items()]
    report["lines"][f"py::{rn}::{name}"] = m.lineno
    return decl + out


def sig(cname, name, params):
    rn, _, ms = TABLE[cname]
    ats, rt, recv = ms[name]
    a = ([recv] if recv else []) + [f"a_{p}: {rust_type(t)}" for p, t in zip(params, ats)] + ["Tracked(gx_h): Tracked<&mut crate::capi::GxHeap>"]
    return f"pub fn {name}({', '.join(a)}) -> Result<{rust_type(rt)}, PyExc>"


def main():
    py, clib, outp, repp = sys.argv[1:5]
    rep = {"unreached": {}, "missing": [], "lines": {}}
    try:
        file = File(py, clib)
    except (SyntaxError, OSError, No) as e:
        file = None
        rep["error"] = str(e)
    o = []
    fields = {}
    out = {}
    # constructors first: they say what the attributes are
    order = [(c, "__init__") for c in TABLE] + [(c, n) for c in TABLE for n in TABLE[c][2] if n != "__init__"]
    for c, n in order:
        rn = TABLE[c][0]
        key = f"py::{rn}::{n}"
        body, params = None, [f"{i}" for i in range(len(TABLE[c][2][n][0]))]
        if file is None or c not in file.classes or file.method(c, n)[1] is None:
            rep["missing"].append(key)
            if n == "__init__": fields[c] = {a: (a, t) for a, t in TABLE[c][1]}
            continue
        if n == "__init__": used = {x.attr for x in ast.walk(file.classes[c]) if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self"}
        try:
            m = file.method(c, n)[1]
            ps = [a.arg for a in m.args.args]
            ps = ps if any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in m.decorator_list) else ps[1:]
            if len(ps) == len(params): params = ps
            if n != "__init__" and c not in fields: raise No(f"the attributes of {c}")
            body = translate(file, c, n, fields, rep)
        except No as e:
            rep["unreached"][key] = f"{e}"
            # under the usual names
            if n == "__init__" and c not in fields and {a for a, _ in TABLE[c][1]} <= used: fields[c] = {a: (a, t) for a, t in TABLE[c][1]}
        except (AttributeError, IndexError, KeyError, TypeError, RecursionError) as e:
            rep["unreached"][key] = f"syntax the translation does not know ({type(e).__name__}: {e})"
        out[(c, n)] = (params, body)
    o.append("use std::ffi; use std::ptr; use crate::capi::*;")
    for c, (rn, want, ms) in TABLE.items():
        o.append(f"#[derive(Clone, Copy)] pub struct {rn} {{ {', '.join(f'pub {a}: {rust_type(t)}' for a, t in want)} }}")
    for c, (rn, want, ms) in TABLE.items():
        o.append(f"impl {rn} {{")
        for n in ms:
            if (c, n) not in out: continue
            params, body = out[(c, n)]
            o.append(f"    {sig(c, n, params)} {{")
            for l in body if body is not None else ["unimplemented!()"]: o.append("        " + l)
            o.append("    }")
        o.append("}")
    # calls that leave the defaults to the signature
    if file is not None:
        for c, n, k in DEFAULTS:
            rn, _, ms = TABLE[c]
            ats, rt, recv = ms[n]
            name = f"py_default_{rn}_{n.strip('_')}_{k}"
            key = f"py::{name}"
            if (c, n) not in out:
                rep["missing"].append(key)
                continue
            fn = Fn(file, c, fields)
            fn.here, fn.mutable = c, False
            params = [(f"a_{i}", t) for i, t in enumerate(ats[:k])]
            ps = ([f"a_self: &{rn}"] if recv else []) + [f"{a}: {rust_type(t)}" for a, t in params] + ["Tracked(gx_h): Tracked<&mut crate::capi::GxHeap>"]
            b = []
            try:
                v = fn.call_method(c, n, V(OBJ(rn), "a_self") if recv else None, [V(t, a) for a, t in params], {}, b)
                b.append(f"return Ok({v.code});")
            except No as e:
                rep["unreached"][key] = str(e)
                b = ["unimplemented!()"]
            o.append(f"pub fn {name}({', '.join(ps)}) -> Result<{rust_type(rt)}, PyExc> {{ {' '.join(b)} }}")
    open(outp, "w").write("\n".join(o) + "\n")
    json.dump(rep, open(repp, "w"), indent=1)


if __name__ == "__main__":
    main()
