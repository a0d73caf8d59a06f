"""Harnesses for the Python wrapper.  Imported by lib/pyrun.py for symbolic execution;
run as a program (pywrap.py DIR LIB FN INPUTS PARAMS) it replays inputs on the real
wrapper and the real C library, with a ctypes binding of its own as the reference."""
import ctypes, fractions, gc, json, os, sys


# ---- shared pieces
def same_multiset(e, got, want, eq):
    if len(got) != len(want): return False
    return e.all([e.any([eq(x, y) for y in want]) for x in got] + [e.any([eq(x, y) for x in got]) for y in want])


def pair(e): return lambda x, y: e.all([x[0] == y[0], x[1] == y[1]])
def one(e): return lambda x, y: e.all([x == y])
def triple(e): return lambda x, y: e.all([e.same_real(x[0], y[0]), x[1] == y[1], x[2] == y[2]])


def listed(e, box, want, eq):
    """A list (the only reference to which is in the box) has the right length and elements under indexing and iteration."""
    l = box.pop()
    n = len(want)
    e.check(e.is_int(len(l)) and len(l) == n, "len() is the number of elements")
    it = [x for x in l]
    e.check(same_multiset(e, it, want, eq), "iteration gives every element once")
    what = e.choose(2)
    if what == 0:
        i = e.integer()
        try:
            got = l[i]
            e.check(e.all([i < n, n > 0]), "an index beyond the end raises IndexError")
            if n:
                w = i if i >= 0 else n - max(abs(i) % n, 1)
                e.check(e.any([e.all([w == k, eq(got, it[k])]) for k in range(n)]), "an index gives its element; negative ones count from the end")
            e.cover("indexed")
        except IndexError:
            e.check(e.any([i >= n, n == 0]), "an index within the list does not raise")
            e.cover("index error")
    else:
        a, b = iter(l), iter(l)
        del l
        gc.collect()
        got = []
        for k in range(n):
            x = next(a)
            y = next(b) if k == 0 else None
            got.append(x)
        e.check(same_multiset(e, got, want, eq), "iterators are independent and outlive the list")
        for q in ((a,) if n else (a, b)):
            try: next(q); e.check(False, "an iterator ends after the last element")
            except StopIteration: e.cover("iterated")


def graph_like(e, g, r, x, y):
    a, b, c, d = g.does_edge_exist(x, y), g.edge_count(), g.vertex_count(), g.is_undirected()
    e.check(e.is_bool(a) and e.is_int(b) and e.is_int(c) and e.is_bool(d), "answers are of the documented types")
    return e.all([a == r.exists(x, y), b == r.ec(), c == r.vc(), d == r.und()])


def compressed_like(e, c, r, x, y):
    v = c.get_compressed_matrix_entry(x, y)
    e.check(e.is_int(v) and e.is_bool(c.is_undirected()) and e.is_bool(c.does_edge_exist(x, y)), "answers are of the documented types")
    return e.all([c.does_edge_exist(x, y) == r.exists(x, y), c.edge_count() == r.ec(), c.vertex_count() == r.vc(), c.is_undirected() == r.und(), c.compression_level() == r.level(), v == r.entry(x, y)])


def matrix_like(e, m, r, x, y):
    v = m.get_entry(x, y)
    e.check(e.is_float(v), "answers are of the documented types")
    return e.all([m.dimension() == r.dim(), m.entry_count() == r.count(), e.same_real(v, r.get(x, y))])


def fresh(e):
    w = e.load()
    und = e.choose(2) == 1
    g = w.Graph(und) if e.choose(2) == 0 else (w.Graph(is_undirected=True) if und else w.Graph())
    return w, g, e.graph(und)


MAX = (1 << 64) - 1


def op(e, g, r):
    k = e.choose(e.param("kinds", 6))
    if k == 0: a, b = e.u64(), e.u64(); g.add_edge(a, b); r.add_edge(a, b); e.cover("add_edge")
    elif k == 1: a, b = e.u64(), e.u64(); g.delete_edge(a, b); r.delete_edge(a, b); e.cover("delete_edge")
    elif k == 2: v = e.u64(); g.add_vertex(v); r.add_vertex(v, []); e.cover("add_vertex")
    elif k == 3: v = e.u64(); g.add_vertex(v, []); r.add_vertex(v, []); e.cover("add_vertex []")
    elif k == 4: v, a = e.u64(), e.u64(); e.assume(a < MAX); g.add_vertex(v, [a]); r.add_vertex(v, [a]); e.cover("add_vertex [a]")
    else: v, a, b = e.u64(), e.u64(), e.u64(); e.assume(a < MAX); e.assume(b < MAX); g.add_vertex(v, to_vertexs=(a, b)); r.add_vertex(v, [a, b]); e.cover("add_vertex (a, b)")


def history(e):
    w, g, r = fresh(e)
    for _ in range(e.param("ops", 2)): op(e, g, r)
    return w, g, r


def small(e):
    """A small graph with one edge anywhere in it."""
    w, g, r = fresh(e)
    n = e.param("size", 12)
    g.add_edge(0, n); r.add_edge(0, n)
    a, b = e.byte(), e.byte()
    e.assume(a <= n); e.assume(b <= n)
    g.add_edge(a, b); r.add_edge(a, b)
    return w, g, r


# ---- harnesses
def h_queries(e):
    w, g, r = history(e)
    x, y = e.u64(), e.u64()
    e.check(graph_like(e, g, r, x, y), "edges, counts and direction are those of the history")
    e.check(e.all([g.vertex_out_degree(x) == r.out_deg(x), g.vertex_in_degree(x) == r.in_deg(x)]), "degrees are those of the history")


def h_lists(e):
    w, g, r = history(e)
    k = e.choose(3)
    if k == 0: l, want, eq = g.edge_list(), r.edges(), pair(e)
    else:
        v = e.u64()
        l, want, eq = (g.vertex_out_edges(v), r.outs(v), one(e)) if k == 1 else (g.vertex_in_edges(v), r.ins(v), one(e))
    box = [l]
    del l, g
    listed(e, box, want, eq)


def h_long(e):
    """A long list: any index of it, and iteration over it."""
    w = e.load()
    kind = e.choose(4)
    eq = [pair, one, one, triple][kind](e)
    if e.choose(2) == 0:
        n = e.param("long", 70000)
        l, at = e.long(w, kind, n)
        e.check(e.is_int(len(l)) and len(l) == n, "len() is the number of elements")
        i = e.integer()
        e.assume(i >= -n)
        try:
            got = l[i]
            e.check(i < n, "an index beyond the end raises IndexError")
            e.check(eq(got, at(i if i >= 0 else n - max(abs(i) % n, 1))), "an index gives its element; negative ones count from the end")
            e.cover("indexed")
        except IndexError:
            e.check(i >= n, "an index within the list does not raise")
            e.cover("index error")
    else:
        n = e.param("iterated", 300)
        l, at = e.long(w, kind, n)
        got = []
        for x in l:
            got.append(x)
            if len(got) > n: break
        e.check(len(got) == n, "iteration ends after the last element")
        e.check(e.all([eq(x, at(k)) for k, x in enumerate(got)]), "iteration gives every element once")
        e.cover("iterated")


def written(edges, dimension):
    """A directed graph's bytes."""
    t = (0x7ae71ffd).to_bytes(4, "big") + (1).to_bytes(4, "big") + dimension.to_bytes(8, "big") + len(edges).to_bytes(8, "big") + bytes(2)
    return t + b"".join(x.to_bytes(8, "big") for p in edges for x in p)


def h_big(e):
    """Long arguments and long results reach the other side whole."""
    k = e.choose(4)
    x, y = e.u64(), e.u64()
    if k == 0:
        w, g, r = fresh(e)
        n = [17, e.param("neighbours", 300)][e.choose(2)]
        l = [(i * 7919 + 3) % 100003 for i in range(n)]
        g.add_vertex(4, l); r.add_vertex(4, l)
        e.check(graph_like(e, g, r, x, y), "every one of many neighbours is joined")
        e.cover("neighbours")
        return
    if k == 1:
        w = e.load()
        n = e.param("records", 4100)
        b = written([(i, i * i % n) for i in range(n)], n)
        plain = e.choose(2) == 0
        r = e.parse("g" if plain else "c", b)
        try:
            g = (w.Graph if plain else w.CompressedGraph).from_bytes(b)
            e.check(r is not None, "unreadable bytes raise ValueError")
            if r is not None: e.check((graph_like if plain else compressed_like)(e, g, r, x, y), "readable bytes give their graph")
            e.cover("long bytes accepted")
        except ValueError:
            e.check(r is None, "readable bytes do not raise")
            e.cover("long bytes rejected")
        return
    w = e.load()
    g, r = w.Graph(False), e.graph(False)
    q = e.choose(3 if k == 3 else 2)
    if k == 2:
        e.big(66000)
        e.fill(g, r, 4100)
        o, s = (g, r) if q == 0 else (g.compress(1), r.compress(1))
        e.check(e.same_records(o.__bytes__(), s.bytes(), 26 if q == 0 else 42), "long bytes are the library's")
        e.cover("long bytes")
    else:
        e.big(66000)
        g.add_vertex(199); r.add_vertex(199, [])
        if q == 0: got, want = g.matrix_string(), r.text()
        elif q == 1: got, want = g.compress(1).matrix_string(), r.compress(1).text()
        else: got, want = g.find_avg_pool_matrix(1).to_string(300), r.pool(1).text(300)
        e.check(e.same_text(got, want), "a long text is the library's")
        e.cover("long text")


def h_duplicate(e):
    w, g, r = history(e)
    d, t = g.duplicate(), r.dup()
    x, y, a, b = e.u64(), e.u64(), e.u64(), e.u64()
    if e.choose(2) == 0: d.add_edge(a, b); t.add_edge(a, b)
    else: d.delete_edge(a, b); t.delete_edge(a, b)
    e.check(e.all([graph_like(e, d, t, x, y), graph_like(e, g, r, x, y)]), "a duplicate is a separate graph with the same edges")
    del g
    gc.collect()
    e.check(graph_like(e, d, t, x, y), "a duplicate outlives the original")


def h_derived(e):
    w, g, r = small(e)
    x, y = e.u64(), e.u64()
    k = e.choose(5)
    if k == 0:
        d, t = e.u64(), e.real()
        a, s = g.approximate(d, t), r.approx(d, t)
        e.check(isinstance(a, w.Graph), "an approximation is a Graph")
        e.check(graph_like(e, a, s, x, y), "the approximation is the library's")
        e.cover("approximation")
    elif k == 1:
        c = g.compress(e_level(e))
        s = r.compress(e.last)
        e.check(isinstance(c, w.CompressedGraph), "the result is a CompressedGraph")
        e.check(compressed_like(e, c, s, x, y), "the compressed graph is the library's, at a level between 1 and 64")
        del g
        d = c.duplicate()
        del c
        gc.collect()
        e.check(compressed_like(e, d, s, x, y), "a duplicate is the same")
        b = d.decompress()
        e.check(isinstance(b, w.Graph), "decompression gives a Graph")
        e.check(graph_like(e, b, s.decompress(), x, y), "decompression is the library's")
        e.cover("compressed")
    elif k == 2:
        if e.param("text", 1) == 0: return
        t = g.matrix_string()
        e.check(e.is_str(t), "the text is a str")
        e.check(e.same_text(t, r.text()), "the text is the library's")
        c = g.compress(1)
        e.check(e.same_text(c.matrix_string(), r.compress(1).text()), "the text is the library's")
        e.cover("text")
    elif k == 3:
        t = bytes(g) if e.native else g.__bytes__()
        e.check(e.is_bytes(t), "the bytes are bytes")
        e.check(e.same_records(t, r.bytes(), 26), "the bytes are the library's")
        c = g.compress(1)
        t = bytes(c) if e.native else c.__bytes__()
        e.check(e.same_records(t, r.compress(1).bytes(), 42), "the bytes are the library's")
        e.cover("bytes")
    else:
        d = e.u64()
        m, s = g.find_avg_pool_matrix(d), r.pool(d)
        e.check(isinstance(m, w.CsrSquareMatrix), "the averages are a CsrSquareMatrix")
        e.check(matrix_like(e, m, s, x, y), "the averages are the library's")
        del g
        q = m.duplicate()
        del m
        gc.collect()
        e.check(matrix_like(e, q, s, x, y), "a duplicate is the same")
        e.cover("averages")


def e_level(e):
    """Any integer, and the level it stands for."""
    l = e.integer()
    e.last = 1 if l < 1 else (64 if l > 64 else l)
    return l


def h_matrix(e):
    w, g, r = small(e)
    d = [1, 5, 20][e.choose(3)]
    m, s = g.find_avg_pool_matrix(d), r.pool(d)
    k = e.choose(4)
    if k == 0: e.check(e.same_text(str(m) if e.native else m.__str__(), s.text(2)), "str() has two decimals"); e.cover("str")
    elif k == 1: e.check(e.same_text(m.to_string(), s.text(2)), "two decimals by default"); e.cover("default")
    elif k == 2: n = [0, 1, 2, 5][e.choose(4)]; e.check(e.same_text(m.to_string(decimal_digits=n), s.text(n)), "as many decimals as asked for"); e.cover("decimals")
    else:
        want = s.entries()
        box = [m.entry_list()]
        del m, g
        gc.collect()
        listed(e, box, want, triple(e))
        e.cover("entries")


def h_from_bytes(e):
    w = e.load()
    n = e.choose(e.param("len", 4) + 1)
    b = e.some_bytes([e.byte() for _ in range(n)])
    x, y = e.u64(), e.u64()
    plain = e.choose(2) == 0
    r = e.parse("g" if plain else "c", b)
    try:
        g = (w.Graph if plain else w.CompressedGraph).from_bytes(b)
        e.check(r is not None, "unreadable bytes raise ValueError")
        if r is not None: e.check((graph_like if plain else compressed_like)(e, g, r, x, y), "readable bytes give their graph")
        e.cover("accepted")
    except ValueError:
        e.check(r is None, "readable bytes do not raise")
        e.cover("rejected")


def h_written(e):
    """What is written is read back, and what is damaged is not (native: one byte of it replaced)."""
    w, g, r = small(e)
    plain = e.choose(2) == 0
    o = g if plain else g.compress(1)
    t = o.__bytes__()
    x, y = e.u64(), e.u64()
    r = e.parse("g" if plain else "c", t)
    try:
        c = (w.Graph if plain else w.CompressedGraph).from_bytes(t)
        e.check(r is not None, "unreadable bytes raise ValueError")
        if r is not None: e.check((graph_like if plain else compressed_like)(e, c, r, x, y), "readable bytes give their graph")
        e.cover("accepted")
    except ValueError:
        e.check(r is None, "readable bytes do not raise")
        e.cover("rejected")


def h_types(e):
    w, g, r = fresh(e)
    k = e.choose(6)
    bad = [5, "x", w.Graph][e.choose(3)]
    try:
        if k == 0: w.Graph(_c_graph=bad)
        elif k == 1: w.CompressedGraph(bad)
        elif k == 2: w.CsrSquareMatrix(bad)
        elif k == 3: w.CompressedGraph(g._graph) if hasattr(g, "_graph") else w.CompressedGraph(bad)
        elif k == 4: w.CsrSquareMatrix(g._graph) if hasattr(g, "_graph") else w.CsrSquareMatrix(bad)
        else: w.Graph(_c_graph=g.find_avg_pool_matrix(1)._matrix) if hasattr(g.find_avg_pool_matrix(1), "_matrix") else w.Graph(_c_graph=bad)
        e.check(False, "something of the wrong type is refused")
    except TypeError:
        e.check(True, "something of the wrong type is refused")
        e.cover("refused")


def h_release(e):
    """Everything is released when the Python objects are gone, in whatever order they go."""
    before = e.live()
    release(e)
    e.check(e.live() == before, "everything is released")


def h_release_long(e):
    """So is what the library returned in thousands."""
    before = e.live()
    release_long(e)
    e.check(e.live() == before, "everything is released")


def release_long(e):
    w = e.load()
    g, r = w.Graph(e.choose(2) == 1), e.graph(False)
    e.big(66000)
    k = e.choose(8)
    if k < 3: g.add_vertex(199); r.add_vertex(199, [])
    else: e.fill(g, r, 4100)
    if k == 0: o = g.matrix_string()
    elif k == 1: o = g.compress(1).matrix_string()
    elif k == 2: o = g.find_avg_pool_matrix(1).to_string(300)
    elif k == 3: o = g.__bytes__()
    elif k == 4: o = g.compress(1).__bytes__()
    elif k == 5: o = g.edge_list()
    elif k == 6: o = g.vertex_out_edges(3)
    else: o = g.find_avg_pool_matrix(2).entry_list()
    if e.choose(2) == 0:
        del g
        gc.collect()
    if k >= 5:
        i = iter(o)
        if e.choose(2) == 0: del o
        gc.collect()
        next(i)
    e.cover("released")


def release(e):
    w, g, r = small(e) if e.choose(2) == 0 else history(e)
    k = e.choose(9)
    if k == 0: o = g.edge_list()
    elif k == 1: o = g.vertex_out_edges(e.u64())
    elif k == 2: o = g.vertex_in_edges(e.u64())
    elif k == 3: o = g.find_avg_pool_matrix(4).entry_list()
    elif k == 4: o = g.duplicate().edge_list()
    elif k == 5: o = g.compress(1).duplicate().decompress().edge_list()
    elif k == 6: o = g.approximate(2, 0.5).edge_list()
    elif k == 7:
        o = [g.__bytes__(), g.compress(2).__bytes__(), g.find_avg_pool_matrix(3).duplicate().to_string(1)]
        if e.param("text", 1) == 1 and g.vertex_count() <= 13: o.append(g.matrix_string())
    else:
        try: o = w.Graph.from_bytes(e.some_bytes([e.byte()]))
        except ValueError: o = []
        try: o = w.CompressedGraph.from_bytes(g.__bytes__())
        except ValueError: pass
    if e.choose(2) == 0:
        del g
        gc.collect()
    if k < 7:
        i = iter(o)
        if e.choose(2) == 0: del o
        gc.collect()
        for _ in range(2):
            try: next(i)
            except StopIteration: e.cover("used to the end"); break
    e.cover("released")


# ---- replay on the real thing
def value(v):
    k = v[0]
    if k in ("int", "bool"): return v[1]
    if k == "real": return float(fractions.Fraction(v[1]))
    if k == "text": return "".join(map(chr, v[1]))
    if k == "bytes": return bytes(v[1])
    if k == "list": return [value(x) if x[0] != "list" else tuple(value(y) for y in x[1]) for x in v[1]]
    return None


def stub(e, rec, directory):
    """The real wrapper and the real ctypes, over a library that answers as recorded: for
    violations that need values which the real library does not return for these inputs."""
    keep, answers = [], {}
    for n, v, o in rec["trace"]: answers.setdefault(n, []).append((v, o))
    U = ctypes.c_uint64
    class Lib:
        def __getattr__(self, name):
            real = name in SIGS
            if not real: raise AttributeError(name)
            args, isreal = SIGS[name]
            def call(*a):
                if not answers.get(name): return 0.0 if isreal else 0
                v, o = answers[name].pop(0)
                if o is not None and a[-1]: ctypes.memmove(a[-1], (o[1] % (1 << 64)).to_bytes(8, "little"), 1 if name.endswith("from_bytes") else 8)
                if v[0] == "memory":
                    import struct
                    cells = [(p, (struct.pack("d", value(x)) if x[0] == "real" else (x[1] % (1 << 8 * z)).to_bytes(z, "little"))) for p, z, x in v[1]]
                    b = ctypes.create_string_buffer(max([p + len(x) for p, x in cells] + [16]))
                    for p, x in cells: ctypes.memmove(ctypes.addressof(b) + p, x, len(x))
                    keep.append(b)
                    return ctypes.addressof(b)
                if isreal: return value(v)
                x = value(v) or 0
                if isinstance(x, float): raise Diverged("kind")
                return x if v[0] != "object" else 0x1000
            cb = ctypes.CFUNCTYPE(ctypes.c_double if isreal else U, *[ctypes.c_double if k == "f64" else U for k in args])(call)
            keep.append(cb)
            f = ctypes.CDLL(None)._FuncPtr(ctypes.cast(cb, ctypes.c_void_p).value)
            self.__dict__[name] = f
            return f
    SIGS = rec["sigs"]
    refs = list(rec["refs"])
    class Ref:
        def __getattr__(self, n):
            def g(*a):
                if not refs or refs[0][0] != n: raise Diverged(n)
                v = refs.pop(0)[1]
                return Ref() if v[0] == "object" else value(v)
            return g
    def parse(kind, b): return Ref().parse()
    e.graph, e.parse = (lambda und: Ref()), parse
    class Loader:
        def LoadLibrary(self, *_): return Lib()
    def load():
        sys.path.insert(0, os.path.dirname(directory))
        ctypes.cdll, ctypes.CDLL_ = Loader(), ctypes.CDLL
        import graphrox
        return graphrox
    e.load = load
    e.live = lambda: 0


class Diverged(Exception):
    pass


class Failed(Exception):
    pass


def main():
    directory, libpath, func, inputs, params = sys.argv[1], sys.argv[2], sys.argv[3], json.loads(sys.argv[4]), json.loads(sys.argv[5])
    lib = ctypes.CDLL(libpath)
    u64, P, D = ctypes.c_uint64, ctypes.c_void_p, ctypes.c_double
    class H(ctypes.Structure): _fields_ = [("p", P)]
    def f(name, ret, *a):
        q = lib[name]; q.restype, q.argtypes = ret, a
        return q
    class Ref:
        def __init__(self, h): self.h = h
        def q(self, name, ret, types=(), *a): return f(name, ret, H, *types)(self.h, *a)
        def items(self, name, w, *a):
            n = ctypes.c_size_t()
            p = self.q(name, P, [u64] * len(a) + [P], *a, ctypes.byref(n))
            return [tuple(x) for x in zip(*[iter((u64 * (w * n.value)).from_address(p))] * w)] if n.value else []
        def raw(self, name):
            n = ctypes.c_size_t()
            return ctypes.string_at(self.q(name, P, [P], ctypes.byref(n)), n.value)
        def str(self, name, *a): return ctypes.string_at(self.q(name, P, [u64] * len(a), *a)).decode()
    class Graph(Ref):
        def add_edge(self, a, b): self.q("gphrx_add_edge", None, [u64, u64], a, b)
        def delete_edge(self, a, b): self.q("gphrx_delete_edge", None, [u64, u64], a, b)
        def add_vertex(self, v, l): self.q("gphrx_add_vertex", None, [u64, P, u64], v, (u64 * len(l))(*l) if l else None, len(l))
        def dup(self): return Graph(self.q("gphrx_duplicate", H))
        def und(self): return bool(self.q("gphrx_is_undirected", ctypes.c_int8))
        def exists(self, a, b): return bool(self.q("gphrx_does_edge_exist", ctypes.c_int8, [u64, u64], a, b))
        def vc(self): return self.q("gphrx_vertex_count", u64)
        def ec(self): return self.q("gphrx_edge_count", u64)
        def out_deg(self, v): return self.q("gphrx_get_vertex_out_degree", u64, [u64], v)
        def in_deg(self, v): return self.q("gphrx_get_vertex_in_degree", u64, [u64], v)
        def edges(self): return self.items("gphrx_get_edge_list", 2)
        def outs(self, v): return [x[0] for x in self.items("gphrx_get_vertex_out_edges_list", 1, v)]
        def ins(self, v): return [x[0] for x in self.items("gphrx_get_vertex_in_edges_list", 1, v)]
        def bytes(self): return self.raw("gphrx_to_bytes")
        def text(self): return self.str("gphrx_matrix_string")
        def approx(self, d, t): return Graph(self.q("gphrx_approximate", H, [u64, D], d, t))
        def pool(self, d): return Matrix(self.q("gphrx_find_avg_pool_matrix", H, [u64], d))
        def compress(self, l): return Compressed(self.q("gphrx_compress", H, [ctypes.c_uint8], l))
    class Compressed(Ref):
        def und(self): return bool(self.q("gphrx_compressed_graph_is_undirected", ctypes.c_int8))
        def exists(self, a, b): return bool(self.q("gphrx_compressed_graph_does_edge_exist", ctypes.c_int8, [u64, u64], a, b))
        def vc(self): return self.q("gphrx_compressed_graph_vertex_count", u64)
        def ec(self): return self.q("gphrx_compressed_graph_edge_count", u64)
        def level(self): return self.q("gphrx_compressed_graph_compression_level", ctypes.c_uint8)
        def entry(self, a, b): return self.q("gphrx_get_compressed_matrix_entry", u64, [u64, u64], a, b)
        def bytes(self): return self.raw("gphrx_compressed_graph_to_bytes")
        def text(self): return self.str("gphrx_compressed_graph_matrix_string")
        def decompress(self): return Graph(self.q("gphrx_decompress", H))
    class Matrix(Ref):
        def dim(self): return self.q("gphrx_matrix_dimension", u64)
        def count(self): return self.q("gphrx_matrix_entry_count", u64)
        def get(self, a, b): return self.q("gphrx_matrix_get_entry", D, [u64, u64], a, b)
        def text(self, d): return self.str("gphrx_matrix_to_string_with_precision", d)
        def entries(self):
            import struct
            return [(struct.unpack("d", struct.pack("Q", v))[0], c, r) for v, c, r in self.items("gphrx_matrix_get_entry_list", 3)]
    class Env:
        native, last, pos = True, None, 0
        def param(self, k, d): return params.get(k, d)
        def next(self, kind):
            if self.pos >= len(inputs) or inputs[self.pos][0] != kind: raise Diverged(kind)
            self.pos += 1
            return inputs[self.pos - 1][1]
        def u64(self): return int(self.next("u64"))
        def integer(self): return int(self.next("int"))
        def byte(self): return int(self.next("byte"))
        def real(self): return float(fractions.Fraction(self.next("real")))
        def choose(self, n): return int(self.next("choose"))
        def some_bytes(self, v): return bytes(v)
        def assume(self, c):
            if not c: raise Diverged("assume")
        def check(self, c, m):
            if not c: raise Failed(m)
        def cover(self, m): pass
        def all(self, l): return all(l)
        def any(self, l): return any(l)
        def no(self, c): return not c
        def is_int(self, x): return isinstance(x, int) and not isinstance(x, bool)
        def is_bool(self, x): return isinstance(x, bool)
        def is_float(self, x): return isinstance(x, float)
        def is_bytes(self, x): return isinstance(x, bytes)
        def is_str(self, x): return isinstance(x, str)
        def same_records(self, a, b, header): return a[:header] == b[:header] and sorted(a) == sorted(b)
        def same_text(self, a, b): return a == b
        def same_real(self, a, b): return a == b
        def graph(self, und): return Graph(f("gphrx_new_undirected" if und else "gphrx_new_directed", H)())
        def parse(self, kind, b):
            err = ctypes.c_uint8()
            h = f("gphrx_from_bytes" if kind == "g" else "gphrx_compressed_graph_from_bytes", H, ctypes.c_char_p, ctypes.c_size_t, P)(b, len(b), ctypes.byref(err))
            return None if err.value else (Graph if kind == "g" else Compressed)(h)
        def big(self, n): pass
        def fill(self, g, r, n):
            for i in range(n): g.add_edge(i, i); r.add_edge(i, i)
        def long(self, w, kind, n):
            g = w.Graph()
            for k in range(n): g.add_edge(0 if kind == 1 else k, 0 if kind == 2 else k)
            m = g.find_avg_pool_matrix(1)
            l = [g.edge_list, lambda: g.vertex_out_edges(0), lambda: g.vertex_in_edges(0), m.entry_list][kind]()
            items = []
            for x in l:
                items.append(x)
                if len(items) > n: break
            want = [(k, k) if kind == 0 else (1.0, k, k) if kind == 3 else k for k in range(n)]
            if sorted(items) != want: raise Failed("iteration does not give every element once")
            at = items.__getitem__
            return l, at
        def live(self):
            gc.collect()
            return f("gv_live", u64)() - f("gv_ref", u64)()
        def load(self):
            sys.path.insert(0, os.path.dirname(directory))
            import graphrox
            return graphrox
    e = Env()
    if len(sys.argv) > 6: stub(e, json.load(open(sys.argv[6])), directory)
    if func.startswith("h_release"):
        # the reference keeps everything it is given: none of it may count
        class Nothing:
            def __getattr__(self, n): return lambda *a: None
        e.graph = lambda und: Nothing()
        e.load()
    try:
        globals()[func](e)
    except Diverged as d: print("DIVERGED", d); sys.exit(3)
    except Failed as d: print("CHECK\t%s" % d); sys.exit(10)
    except Exception as d: print("EXCEPTION\t%s: %s" % (type(d).__name__, d)); sys.exit(10)
    print("DONE")


if __name__ == "__main__":
    main()
