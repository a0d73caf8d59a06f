"""Symbolic execution of the Python wrapper's source.

The module's own source is executed by CPython with symbolic integers, reals and
bytes in place of the inputs; `ctypes` is replaced by a model of it and the C
library by its specification, given as z3 terms.  Each branch on a symbolic value
explores both sides the solver finds feasible; assertions are decided by z3.
"""
import builtins, gc, hashlib, os, sys, time, types
import z3

E = None                                  # the path being executed
HUGE = 1 << 64


class Abort(BaseException):
    """The path ends here."""


class Unsupported(BaseException):
    """Something the model does not cover."""


class Path:
    def __init__(self, prefix, stats):
        self.prefix, self.taken, self.todo, self.st = prefix, [], [], stats
        self.s = z3.Solver()
        self.s.set("timeout", 60000)
        self.inputs, self.viol, self.covers, self.nfresh, self.checks, self.dead, self.unsup = [], [], set(), 0, 0, False, None
        self.sample, self.trace, self.refs = None, [], []

    def sat(self, *extra):
        self.st["queries"] += 1
        t = time.time()
        r = self.s.check(*extra)
        self.st["solver_s"] += time.time() - t
        if r == z3.unknown: self.fail("solver: " + self.s.reason_unknown())
        return r == z3.sat

    def fail(self, msg):
        self.unsup = self.unsup or msg
        self.dead = True
        raise Unsupported(msg)

    def branch(self, c, val=None):
        if self.dead: raise Abort()
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        i = len(self.taken)
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            t, f = self.sat(c), self.sat(z3.Not(c))
            if not t and not f: self.dead = True; raise Abort()
            d = (val, t)
            if t and f: self.todo.append(self.taken + [(val, False)]); self.st["forks"] += 1
        self.taken.append(d)
        self.s.add(c if d[1] else z3.Not(c))
        return d[1]

    def concretize(self, t, limit=70):
        t = z3.simplify(t)
        if z3.is_int_value(t): return t.as_long()
        for _ in range(limit):
            i = len(self.taken)
            if i < len(self.prefix): v = self.prefix[i][0]
            else:
                if not self.sat(): self.dead = True; raise Abort()
                v = self.s.model().eval(t, model_completion=True).as_long()
            if self.branch(t == v, v): return v
        self.fail("a value that has to be concrete has too many values")

    def assume(self, c):
        self.s.add(c)
        if not self.sat(): self.dead = True; raise Abort()

    def fresh(self, sort, name):
        self.nfresh += 1
        return z3.Const("%s!%d" % (name, self.nfresh), sort)

    def model_inputs(self, m):
        out = []
        for kind, t in self.inputs:
            if not z3.is_expr(t): out.append((kind, t)); continue
            v = m.eval(t, model_completion=True)
            out.append((kind, str(v.as_fraction()) if kind == "real" else v.as_long()))
        return out

    def violation(self, kind, msg, extra=()):
        if self.dead: return
        if self.sat(*extra): self.record(kind, msg)

    def record(self, kind, msg):
        m = self.s.model()
        self.viol.append(dict(kind=kind, msg=msg, inputs=self.model_inputs(m), refs=[(n, plain(v, m)) for n, v in self.refs],
                              trace=[(n, plain(v, m), None if o is None else plain(o, m)) for n, v, o in self.trace]))

    def fault(self, msg):
        self.violation("memory", msg)
        self.dead = True
        raise Abort()

    def check(self, c, msg):
        if self.dead: raise Abort()
        self.checks += 1
        c = tb(c)
        self.st["checks"] += 1
        if z3.is_true(z3.simplify(c)): return
        if self.sat(z3.Not(c)):
            self.record("check", msg)
            self.assume(c)


# ------------------------------------------------------------------ values
def plain(v, m):
    """A value under a model, for replay."""
    if v is None: return ["none"]
    if isinstance(v, SymBool): return ["bool", z3.is_true(m.eval(v.t, model_completion=True))]
    if isinstance(v, bool): return ["bool", v]
    if isinstance(v, SymInt): return ["int", m.eval(v.t, model_completion=True).as_long()]
    if isinstance(v, int): return ["int", v]
    if isinstance(v, SymReal): return ["real", str(m.eval(v.t, model_completion=True).as_fraction())]
    if isinstance(v, float): return ["real", str(v)]
    if isinstance(v, SymText): return ["text", [plain(x, m)[1] for x in v.v]]
    if isinstance(v, (SymBytes, bytes)): return ["bytes", [plain(x, m)[1] for x in v]]
    if isinstance(v, Block): return ["memory", [[o, c[0], plain(c[2], m)] for o, c in sorted(v.cells.items())]]
    if isinstance(v, (list, tuple)): return ["list", [plain(x, m) for x in v]]
    return ["object"]


def tb(x):
    if isinstance(x, SymBool): return x.t
    if z3.is_expr(x): return x
    return z3.BoolVal(bool(x))


def ti(x):
    if isinstance(x, SymInt): return x.t
    if isinstance(x, SymBool): return z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, int): return z3.IntVal(int(x))
    return None


def tr(x):
    if isinstance(x, SymReal): return x.t
    if isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")): E.fail("a float that is not a number")
        n, d = x.as_integer_ratio()
        return z3.RealVal(n) / z3.RealVal(d)
    t = ti(x)
    return None if t is None else z3.ToReal(t)


def _cmp(op):
    def f(self, o):
        if isinstance(self, SymReal) or isinstance(o, (SymReal, float)): a, b = tr(self), tr(o)
        else: a, b = ti(self), ti(o)
        if a is None or b is None: return NotImplemented
        return SymBool(op(a, b))
    return f


class _Sym:
    __slots__ = ()
    def __str__(self): return "<symbolic>"
    __repr__ = __str__
    def __format__(self, _): return "<symbolic>"
    __lt__, __le__ = _cmp(lambda a, b: a < b), _cmp(lambda a, b: a <= b)
    __gt__, __ge__ = _cmp(lambda a, b: a > b), _cmp(lambda a, b: a >= b)
    def __eq__(self, o):
        r = _cmp(lambda a, b: a == b)(self, o)
        return False if r is NotImplemented else r
    def __ne__(self, o):
        r = _cmp(lambda a, b: a != b)(self, o)
        return True if r is NotImplemented else r


def _arith(op, iop=None):
    def f(self, o):
        if isinstance(self, SymReal) or isinstance(o, (SymReal, float)):
            a, b = tr(self), tr(o)
            return NotImplemented if a is None or b is None else SymReal(op(a, b))
        a, b = ti(self), ti(o)
        return NotImplemented if a is None or b is None else SymInt(op(a, b))
    def g(self, o):
        if isinstance(self, SymReal) or isinstance(o, (SymReal, float)):
            a, b = tr(self), tr(o)
            return NotImplemented if a is None or b is None else SymReal(op(b, a))
        a, b = ti(self), ti(o)
        return NotImplemented if a is None or b is None else SymInt(op(b, a))
    return f, g


def divmod_(a, b):
    if E.branch(b == 0): raise ZeroDivisionError("integer modulo by zero")
    if E.branch(b > 0): return a / b, a % b          # z3: floor for a positive divisor
    return (-a) / (-b), -((-a) % (-b))


class SymInt(_Sym):
    __slots__ = ("t", "lo", "hi")
    def __init__(self, t, lo=None, hi=None): self.t, self.lo, self.hi = t, lo, hi
    __add__, __radd__ = _arith(lambda a, b: a + b)
    __sub__, __rsub__ = _arith(lambda a, b: a - b)
    __mul__, __rmul__ = _arith(lambda a, b: a * b)
    def __neg__(self): return SymInt(-self.t)
    def __pos__(self): return self
    def __abs__(self): return SymInt(z3.If(self.t >= 0, self.t, -self.t))
    def __invert__(self): return SymInt(-self.t - 1)
    def __floordiv__(self, o): return SymInt(divmod_(self.t, ti(o))[0])
    def __rfloordiv__(self, o): return SymInt(divmod_(ti(o), self.t)[0])
    def __mod__(self, o): return SymInt(divmod_(self.t, ti(o))[1])
    def __rmod__(self, o): return SymInt(divmod_(ti(o), self.t)[1])
    def __divmod__(self, o): a, b = divmod_(self.t, ti(o)); return SymInt(a), SymInt(b)
    def __truediv__(self, o): return SymReal(tr(self) / tr(o))
    def __lshift__(self, o): return SymInt(self.t * (1 << E.concretize(ti(o))))
    def __rshift__(self, o): return SymInt(self.t / z3.IntVal(1 << E.concretize(ti(o))))
    def __and__(self, o):
        if isinstance(o, int) and o >= 0 and (o + 1) & o == 0: return SymInt(self.t % z3.IntVal(o + 1))
        if isinstance(o, SymInt): E.fail("bitwise and of symbolic values")
        return self.__index__() & o
    __rand__ = __and__
    def __or__(self, o): return self.__index__() | o
    __ror__ = __or__
    def __xor__(self, o): return self.__index__() ^ o
    def __bool__(self): return E.branch(self.t != 0)
    def __index__(self): return E.concretize(self.t)
    __int__ = __index__
    def __hash__(self): return hash(E.concretize(self.t))
    def __getattr__(self, n):
        if n.startswith("__") or not hasattr(int, n): raise AttributeError(n)
        E.fail("int." + n)


class SymBool(_Sym):
    __slots__ = ("t",)
    def __init__(self, t): self.t = t
    def __bool__(self): return E.branch(self.t)
    def __and__(self, o): return SymBool(z3.And(self.t, tb(o)))
    __rand__ = __and__
    def __or__(self, o): return SymBool(z3.Or(self.t, tb(o)))
    __ror__ = __or__
    def __index__(self): return int(E.branch(self.t))
    __int__ = __index__
    def __hash__(self): return hash(E.branch(self.t))


class SymReal(_Sym):
    __slots__ = ("t",)
    def __init__(self, t): self.t = t
    __add__, __radd__ = _arith(lambda a, b: a + b)
    __sub__, __rsub__ = _arith(lambda a, b: a - b)
    __mul__, __rmul__ = _arith(lambda a, b: a * b)
    def __neg__(self): return SymReal(-self.t)
    def __truediv__(self, o): return SymReal(self.t / tr(o))
    def __rtruediv__(self, o): return SymReal(tr(o) / self.t)
    def __bool__(self): return E.branch(self.t != 0)
    def __float__(self): E.fail("float of a symbolic real")
    def __int__(self): E.fail("int of a symbolic real")
    def __hash__(self): E.fail("hash of a symbolic real")


def same_seq(a, b):
    if len(a) == len(b) and all(isinstance(x, int) for x in a) and all(isinstance(x, int) for x in b): return SymBool(z3.BoolVal(list(a) == list(b)))
    if len(a) != len(b): return SymBool(z3.BoolVal(False))
    return SymBool(z3.And([ti(x) == ti(y) for x, y in zip(a, b)] + [z3.BoolVal(True)]))


class SymBytes:
    """bytes of known length with symbolic contents; also stands for bytearray and memoryview."""
    def __init__(self, v): self.v = list(v)
    def __len__(self): return len(self.v)
    def __iter__(self): return iter(self.v)
    def __getitem__(self, i): return SymBytes(self.v[i]) if isinstance(i, slice) else self.v[i]
    def __setitem__(self, i, x): self.v[i] = x
    def __add__(self, o): return SymBytes(self.v + list(o))
    def __radd__(self, o): return SymBytes(list(o) + self.v)
    def __eq__(self, o): return same_seq(self, o) if isinstance(o, (SymBytes, bytes, bytearray)) else False
    def __ne__(self, o): return SymBool(z3.Not(tb(self == o)))
    __hash__ = None
    def decode(self, *_, **__): return SymText(self.v)
    def __getattr__(self, n):
        if n.startswith("__") or not hasattr(bytes, n): raise AttributeError(n)
        E.fail("bytes." + n)


class SymText:
    def __init__(self, v): self.v = list(v)
    def __len__(self): return len(self.v)
    def __eq__(self, o): return same_seq(self.v, o.v) if isinstance(o, SymText) else (same_seq(self.v, o.encode()) if isinstance(o, str) else False)
    __hash__ = None
    def __getattr__(self, n):
        if n.startswith("__") or not hasattr(str, n): raise AttributeError(n)
        E.fail("str." + n)


def shim(base, syms, conv):
    class M(type):
        def __instancecheck__(cls, x): return isinstance(x, (base,) + syms)
        def __subclasscheck__(cls, x): return issubclass(x, (base,) + syms)
        def __call__(cls, *a, **k): return conv(*a, **k)
        def __getattr__(cls, n): return getattr(base, n)
        def __eq__(cls, o): return o is cls or o is base
        def __hash__(cls): return hash(base)
        def __or__(cls, o): return types.UnionType
    return M(base.__name__, (), {"__doc__": base.__doc__})


def _int(*a, **k):
    if len(a) == 1 and not k:
        if isinstance(a[0], SymInt): return a[0]
        if isinstance(a[0], SymBool): return SymInt(ti(a[0]))
    return int(*a, **k)


def _bool(*a):
    if a:
        if isinstance(a[0], SymBool): return a[0]
        if isinstance(a[0], (SymInt, SymReal)): return SymBool(a[0].t != 0)
    return bool(*a)


def _float(*a):
    if a and isinstance(a[0], SymReal): return a[0]
    if a and isinstance(a[0], (SymInt, SymBool)): return SymReal(z3.ToReal(ti(a[0])))
    return float(*a)


def _bytes(*a, **k):
    if len(a) == 1 and not k:
        x = a[0]
        if isinstance(x, SymBytes): return SymBytes(x.v)
        if isinstance(x, SymInt): return bytes(E.concretize(x.t))
        if not isinstance(x, (bytes, bytearray, str, int)):
            if hasattr(type(x), "__bytes__"): return x.__bytes__()
            l = list(x)
            if any(isinstance(y, SymInt) for y in l):
                for y in l:
                    if isinstance(y, SymInt) and not (y.lo is not None and 0 <= y.lo and y.hi < 256) and not E.branch(z3.And(y.t >= 0, y.t < 256)): raise ValueError("bytes must be in range(0, 256)")
                return SymBytes(l)
            return bytes(l)
    return bytes(*a, **k)


def _bytearray(*a, **k):
    r = _bytes(*a, **k)
    return r if isinstance(r, SymBytes) else bytearray(r)


def _str(*a, **k):
    if len(a) >= 1 and isinstance(a[0], SymText): return a[0]
    if len(a) >= 1 and isinstance(a[0], SymBytes): return SymText(a[0].v)
    if len(a) == 1 and hasattr(type(a[0]), "__str__") and not isinstance(a[0], (str, int, float)) and type(a[0]).__str__ is not object.__str__: return a[0].__str__()
    return str(*a, **k)


SHIMS = {"int": shim(int, (SymInt, SymBool), _int), "bool": shim(bool, (SymBool,), _bool), "float": shim(float, (SymReal,), _float),
         "bytes": shim(bytes, (SymBytes,), _bytes), "bytearray": shim(bytearray, (SymBytes,), _bytearray), "memoryview": shim(memoryview, (SymBytes,), lambda x: SymBytes(list(x))),
         "str": shim(str, (SymText,), _str)}


def sized(x, n):
    return x.v[:n] if isinstance(x, SymBytes) else list(x)[:n]


# ------------------------------------------------------------------ memory
class Long:
    """A list of n records of w words each, whose values are an unknown function of their index."""
    def __init__(self, name, n, w, floats=()): self.name, self.n, self.w, self.floats = name, n, w, floats
    def __len__(self): return self.n
    def at(self, i):
        return tuple(SymReal(uf("%s%d" % (self.name, j), I, R)(ti(i))) if j in self.floats else ranged(uf("%s%d" % (self.name, j), I, I)(ti(i))) for j in range(self.w))


def window(b, off, size):
    """Where these bytes of a long block are: a block made for the purpose."""
    rec = b.long.w * 8
    if isinstance(off, SymInt): q, r = divmod_(off.t, z3.IntVal(rec)); q, r = SymInt(q), E.concretize(r)
    else: q, r = divmod(off, rec)
    key = (str(z3.simplify(ti(q))), (r + size + rec - 1) // rec)
    if key not in b.windows:
        x = Block(key[1] * rec)
        for k in range(key[1]):
            for j, v in enumerate(b.long.at(q + k)): x.put(k * rec + j * 8, 8, "f" if j in b.long.floats else "u", v)
        b.windows[key] = x
    return b.windows[key].base + r


class Block:
    """A piece of memory: typed cells at byte offsets."""
    def __init__(self, size, free=None, count=None):
        E.nfresh += 1
        self.long, self.windows = None, {}
        self.base, self.size, self.cells, self.free, self.count, self.freed = (0x7e00_0000_0000 + (E.nfresh << 24)), size, {}, free, count, False
        E.blocks[self.base] = self

    def put(self, off, size, kind, val): self.cells[off] = (size, kind, val)

    def get(self, off, size, kind):
        if self.freed: E.fault("memory used after it was released")
        if off < 0 or off + size > self.size: E.fault("memory outside the object is accessed")
        if self.long:
            b, o = find_block(window(self, off, size))
            return b.get(o, size, kind)
        c = self.cells.get(off)
        if c and c[0] == size and (c[1] == "f") == (kind == "f"): return wrap(c[2], size, kind) if kind != "f" else c[2]
        if kind == "f": return SymReal(E.fresh(z3.RealSort(), "garbage"))
        for o, (s, k, v) in self.cells.items():
            if o <= off and off + size <= o + s and k != "f":
                return wrap(SymInt(ti(wrap(v, s, "u")) / z3.IntVal(1 << (8 * (off - o)))), size, kind)
        t, o = z3.IntVal(0), off
        while o < off + size:
            c = self.cells.get(o)
            if not c or c[1] == "f" or o + c[0] > off + size:
                return wrap(SymInt(E.fresh(z3.IntSort(), "garbage")), size, kind)
            t = t + ti(wrap(c[2], c[0], "u")) * z3.IntVal(1 << (8 * (o - off)))
            o += c[0]
        return wrap(SymInt(t), size, kind)


def find_block(addr):
    b = E.blocks.get(addr & ~0xffffff)
    return b, addr & 0xffffff


def wrap(v, size, kind):
    """The value as an integer of this many bytes."""
    m = 1 << (8 * size)
    lo, hi = (0, m - 1) if kind == "u" else (-(m >> 1), (m >> 1) - 1)
    if isinstance(v, bool): return int(v)
    if isinstance(v, int):
        v %= m
        return v - m if v > hi else v
    if isinstance(v, SymBool): return SymInt(ti(v), 0, 1)
    if v.lo is not None and lo <= v.lo and v.hi <= hi: return v
    t = z3.simplify(v.t)
    if z3.is_int_value(t): return wrap(t.as_long(), size, kind)
    return SymInt(t % m, lo, hi) if kind == "u" else SymInt((t + (m >> 1)) % m - (m >> 1), lo, hi)


# ------------------------------------------------------------------ ctypes
class ArgumentError(Exception):
    pass


class CMeta(type):
    def __mul__(cls, n):
        n = n.__index__()
        if n < 0: raise ValueError("Array length must be >= 0")
        k = (cls, n)
        if k not in ARRAYS: ARRAYS[k] = CMeta("%s_Array_%d" % (cls.__name__, n), (CArray,), {"_type_": cls, "_length_": n})
        return ARRAYS[k]
    __rmul__ = __mul__
    def size(cls): return cls._size
    def __setattr__(cls, n, v):
        if n == "_fields_" and issubclass(cls, CStruct): layout(cls, v)
        type.__setattr__(cls, n, v)
    def __init__(cls, name, bases, ns):
        type.__init__(cls, name, bases, ns)
        if "_fields_" in ns: layout(cls, ns["_fields_"])


ARRAYS, POINTERS = {}, {}


class CData(metaclass=CMeta):
    _size = 0
    @classmethod
    def view(cls, addr):
        o = cls.__new__(cls)
        o._addr, o._keep = addr, E.blocks.get(addr & ~0xffffff)
        return o
    def _new(self): b = Block(type(self).size()); self._addr, self._keep = b.base, b
    def _cell(self):
        b, o = find_block(self._addr)
        if b is None: E.fault("a pointer to nothing is followed")
        return b, o
    @classmethod
    def from_address(cls, a): return cls.view(a.__index__())
    @classmethod
    def from_buffer(cls, buf, offset=0):
        o = cls.__new__(cls); o._new()
        v = list(buf)[offset:]
        if len(v) < cls.size(): raise ValueError("Buffer size too small")
        b, _ = o._cell()
        for i in range(cls.size()): b.put(i, 1, "u", v[i])
        return o
    from_buffer_copy = from_buffer
    @classmethod
    def from_param(cls, x): return x


class CSimple(CData):
    def __init__(self, value=None):
        self._new()
        if self._kind == "z" or self._kind == "p":
            self._cell()[0].put(0, 8, "u", 0)
            if value is not None: self.value = value
        else: self.value = 0 if value is None else value
    @property
    def value(self):
        b, o = self._cell()
        return from_c(type(self), b, o)
    @value.setter
    def value(self, v):
        b, o = self._cell()
        b.put(o, self._size, "f" if self._kind == "f" else "u", to_c(type(self), v))
    def __bool__(self): return builtins.bool(self.value)


def from_c(t, b, o):
    """What Python sees of a simple C value in memory."""
    if t._kind == "f": return b.get(o, t._size, "f")
    if t._kind in "pz":
        a = E.concretize(ti(b.get(o, 8, "u")))
        if a == 0: return None
        return read_string(a) if t._kind == "z" else a
    v = b.get(o, t._size, t._kind)
    return _bool(v) if t._name == "c_bool" else (bytes([v.__index__()]) if t._name == "c_char" else v)


def read_string(a):
    out = []
    while True:
        b, o = find_block(a + len(out))
        if b is None: E.fault("a string is read past its end")
        c = b.get(o, 1, "u")
        if E.branch(ti(c) == 0): break
        out.append(c)
    return SymBytes(out) if any(isinstance(c, SymInt) for c in out) else bytes(out)


def to_c(t, v):
    """The C value of this type for a Python argument."""
    if isinstance(v, t): return v._cell()[0].get(v._cell()[1], t._size, "f" if t._kind == "f" else "u")
    if t._kind == "f":
        if isinstance(v, (int, float, SymInt, SymReal, SymBool)): return v if isinstance(v, (SymReal, float)) else SymReal(tr(v))
        raise TypeError("must be real number, not " + type(v).__name__)
    if t._kind in "pz": return address(t, v)
    if t._name == "c_bool": return SymInt(z3.If(tb(_bool(v)), z3.IntVal(1), z3.IntVal(0)), 0, 1)
    if isinstance(v, (int, SymInt, SymBool)): return wrap(v, t._size, t._kind)
    if t._name == "c_char" and isinstance(v, bytes) and len(v) == 1: return v[0]
    raise TypeError("an integer is required, got " + type(v).__name__)


def address(t, v):
    """The address passed for a pointer-like parameter."""
    if v is None: return 0
    if isinstance(v, Ref): a, elem = v.obj._addr + v.off, type(v.obj)
    elif isinstance(v, CPointer): a, elem = v._target(), type(v)._type_
    elif isinstance(v, CArray): a, elem = v._addr, type(v)._type_
    elif isinstance(v, CSimple) and v._kind in "pz": a, elem = E.concretize(ti(v._cell()[0].get(v._cell()[1], 8, "u"))), None
    elif isinstance(v, (bytes, bytearray, SymBytes)):
        if issubclass(t, CPointer): raise TypeError("expected %s instance instead of bytes" % t.__name__)
        b = Block(len(v) + 1)
        for i, x in enumerate(list(v) + [0]): b.put(i, 1, "u", x)
        E.keep.append(b)
        return b.base
    elif isinstance(v, (int, SymInt)) and not issubclass(t, CPointer) and t._kind == "p": return v.__index__() % HUGE
    elif issubclass(t, CPointer) and isinstance(v, t._type_): a, elem = v._addr, t._type_
    else: raise TypeError("expected %s instance instead of %s" % (t.__name__, type(v).__name__))
    if issubclass(t, CPointer) and elem is not t._type_: raise TypeError("expected %s instance" % t.__name__)
    return a


class CArray(CData):
    def __init__(self, *a):
        if len(a) > self._length_: raise IndexError("invalid index")
        self._new()
        z = self._type_.size()
        for i in range(self._length_):
            if issubclass(self._type_, CSimple): self._cell()[0].put(i * z, z, "f" if self._type_._kind == "f" else "u", 0)
        for i, x in enumerate(a): store(self._type_, self._addr + i * z, x)
    @classmethod
    def _sz(cls): return cls._length_ * cls._type_.size()
    def __len__(self): return self._length_
    def _at(self, i):
        i = i.__index__()
        if i < 0: i += self._length_
        if not 0 <= i < self._length_: raise IndexError("invalid index")
        return self._addr + i * self._type_.size()
    def __getitem__(self, i):
        if isinstance(i, slice): return sliced(self._type_, [load(self._type_, self._at(j)) for j in range(*slice(*[x if x is None else x.__index__() for x in (i.start, i.stop, i.step)]).indices(self._length_))])
        return load(self._type_, self._at(i))
    def __setitem__(self, i, x): store(self._type_, self._at(i), x)
    def __iter__(self): return iter([self[i] for i in range(self._length_)])
    @property
    def value(self): return read_string(self._addr)
    @property
    def raw(self): return _bytes([load(UBYTE, self._addr + i) for i in range(self._length_)])


def sliced(t, l):
    return _bytes([x[0] for x in l]) if issubclass(t, CSimple) and t._name == "c_char" else l


def load(t, addr):
    if issubclass(t, CSimple):
        b, o = find_block(addr)
        if b is None: E.fault("a pointer to nothing is followed")
        return from_c(t, b, o)
    if issubclass(t, CPointer):
        b, o = find_block(addr)
        return pointer_to(t, E.concretize(ti(b.get(o, 8, "u"))))
    return t.view(addr)


def store(t, addr, v):
    b, o = find_block(addr)
    if b is None: E.fault("a pointer to nothing is followed")
    if b.freed or o + t.size() > b.size: E.fault("memory outside the object is written")
    if issubclass(t, CSimple): b.put(o, t._size, "f" if t._kind == "f" else "u", to_c(t, v))
    elif issubclass(t, CPointer): b.put(o, 8, "u", address(t, v))
    elif isinstance(v, t):
        s, p = v._cell()
        for k, c in list(s.cells.items()):
            if p <= k < p + t.size(): b.cells[o + k - p] = c
    else: raise TypeError("expected %s instance" % t.__name__)


class CStruct(CData):
    def __init__(self, *a, **k):
        self._new()
        for n, (o, t) in self._layout.items():
            if issubclass(t, CSimple): self._cell()[0].put(o, t._size, "f" if t._kind == "f" else "u", 0)
            elif issubclass(t, CPointer): self._cell()[0].put(o, 8, "u", 0)
        if len(a) > len(self._layout): raise TypeError("too many initializers")
        for n, v in list(zip(self._layout, a)) + list(k.items()): setattr(self, n, v)


def layout(cls, fields):
    base = next((b for b in cls.__mro__[1:] if '_layout' in vars(b)), None)
    off, lay, align = (base._end, dict(base._layout), base._align) if base else (0, {}, 1)
    for f in fields:
        n, t = f[0], f[1]
        z = t.size()
        al = t._align if issubclass(t, CStruct) else (t._type_.size() if issubclass(t, CArray) else z)
        off = (off + al - 1) // al * al
        lay[n] = (off, t)
        align = max(align, al)
        def get(self, o=off, t=t): return load(t, self._addr + o)
        def put(self, v, o=off, t=t): store(t, self._addr + o, v)
        type.__setattr__(cls, n, property(get, put))
        off += z
    for k, v in (("_layout", lay), ("_size", (off + align - 1) // align * align), ("_align", align), ("_end", off)): type.__setattr__(cls, k, v)


CMeta.size = lambda cls: cls._length_ * cls._type_.size() if issubclass(cls, CArray) else cls._size


class CPointer(CData):
    _size = 8
    def __init__(self, obj=None):
        self._new()
        if obj is not None and not isinstance(obj, type(self)._type_): raise TypeError("expected %s instead of %s" % (type(self)._type_.__name__, type(obj).__name__))
        self._cell()[0].put(0, 8, "u", 0 if obj is None else obj._addr)
        self._obj = obj
    def _target(self): return E.concretize(ti(self._cell()[0].get(self._cell()[1], 8, "u")))
    def __bool__(self): return self._target() != 0
    @property
    def contents(self):
        a = self._target()
        if a == 0: raise ValueError("NULL pointer access")
        return type(self)._type_.view(a)
    @contents.setter
    def contents(self, o): self._cell()[0].put(self._cell()[1], 8, "u", o._addr)
    def _at(self, i):
        t = type(self)._type_
        a = self._target()
        if a == 0: raise ValueError("NULL pointer access")
        if isinstance(i, SymInt):
            b, o = find_block(a)
            if b is None: E.fault("a pointer to nothing is followed")
            off = i.t * t.size() + o
            if not E.branch(z3.And(off >= 0, off + t.size() <= b.size)): E.fault("memory outside the object is accessed")
            if b.long:
                if b.freed: E.fault("memory used after it was released")
                return window(b, SymInt(off), t.size())
        return a + i.__index__() * t.size()
    def __getitem__(self, i):
        t = type(self)._type_
        if isinstance(i, slice):
            if i.stop is None: raise ValueError("slice stop is required")
            st, sp, se = [d if x is None else x.__index__() for x, d in ((i.start, 0), (i.stop, 0), (i.step, 1))]
            return sliced(t, [self._deref(self._at(j)) for j in range(st, sp, se)])
        return self._deref(self._at(i))
    def _deref(self, a):
        b, o = find_block(a)
        if b is None: E.fault("a pointer to nothing is followed")
        if b.freed: E.fault("memory used after it was released")
        if o + type(self)._type_.size() > b.size: E.fault("memory outside the object is accessed")
        if b.long: a = window(b, o, type(self)._type_.size())
        return load(type(self)._type_, a)
    def __setitem__(self, i, v): store(type(self)._type_, self._at(i), v)


def POINTER(t):
    if t is None: return C["c_void_p"]
    if t not in POINTERS: POINTERS[t] = CMeta("LP_" + t.__name__, (CPointer,), {"_type_": t})
    return POINTERS[t]


def pointer_to(t, addr):
    p = t.__new__(t); p._new(); p._obj = None
    p._cell()[0].put(0, 8, "u", addr)
    return p


class Ref:
    def __init__(self, obj, off=0):
        if not isinstance(obj, CData): raise TypeError("byref() argument must be a ctypes instance, not '%s'" % type(obj).__name__)
        self.obj, self.off = obj, off
        self._obj = obj


def cast(obj, t):
    a = address(C["c_void_p"], obj)
    if issubclass(t, CPointer): return pointer_to(t, a)
    if issubclass(t, CSimple) and t._kind in "pz":
        r = t(); r._cell()[0].put(0, 8, "u", a); return r
    raise TypeError("cast() argument 2 must be a pointer")


def string_at(p, size=-1):
    a = address(C["c_void_p"], p)
    if isinstance(size, int) and size == -1: return read_string(a)
    return _bytes([load(UBYTE, a + i) for i in range(size.__index__())])


C = {}
for names, size, kind in (("c_bool", 1, "u"), ("c_char c_byte c_int8", 1, "s"), ("c_ubyte c_uint8", 1, "u"), ("c_short c_int16", 2, "s"), ("c_ushort c_uint16", 2, "u"),
                          ("c_int c_int32", 4, "s"), ("c_uint c_uint32", 4, "u"), ("c_long c_longlong c_int64 c_ssize_t", 8, "s"), ("c_ulong c_ulonglong c_uint64 c_size_t", 8, "u"),
                          ("c_double", 8, "f"), ("c_void_p", 8, "p"), ("c_char_p", 8, "z")):
    ns = names.split()
    if names.startswith("c_char c"):
        C["c_char"] = CMeta("c_char", (CSimple,), {"_size": 1, "_kind": "u", "_name": "c_char"}); ns = ns[1:]
    k = CMeta(ns[0], (CSimple,), {"_size": size, "_kind": kind, "_name": ns[0]})
    for n in ns: C[n] = k
UBYTE = C["c_ubyte"]


class Func:
    def __init__(self, name):
        if name not in SIG: raise AttributeError("undefined symbol: " + name)
        d = self.__dict__
        d["__name__"], d["argtypes"], d["restype"], d["errcheck"] = name, None, C["c_int"], None
    def __setattr__(self, n, v):
        if n not in ("argtypes", "restype", "errcheck"): raise Unsupported("function attribute " + n)
        self.__dict__[n] = v
    def __call__(self, *args, **kw):
        if E.dead: raise Abort()
        if kw: raise TypeError("function takes no keyword arguments")
        raw = []
        if self.argtypes is not None:
            if len(args) < len(self.argtypes): raise TypeError("this function takes at least %d arguments (%d given)" % (len(self.argtypes), len(args)))
        for i, a in enumerate(args):
            t = self.argtypes[i] if self.argtypes is not None and i < len(self.argtypes) else None
            try: raw.append(raw_arg(t, a))
            except TypeError as e: raise ArgumentError("argument %d: TypeError: %s" % (i + 1, e))
        sig, ret = SIG[self.__name__]
        vals = []
        for i, k in enumerate(sig):
            rk, v = raw[i] if i < len(raw) else ("none", None)
            if k == "f64": vals.append(v if rk == "f" else SymReal(E.fresh(z3.RealSort(), "garbage")))
            elif rk not in ("i", "p"): vals.append(SymInt(E.fresh(z3.IntSort(), "garbage")) if k not in ("p", "h") else 0xdead)
            elif k in ("p", "h"): vals.append(E.concretize(ti(v)) % HUGE if not isinstance(v, int) else v % HUGE)
            else: vals.append(wrap(v, {"u64": 8, "u8": 1}[k], "u"))
        E.st["calls"] += 1
        E.called.add(self.__name__)
        v = LIB[self.__name__](*vals)
        if not self.__name__.startswith("free_"):
            o = None
            if sig and sig[-1] == "p" and vals[-1]:
                b, off = find_block(vals[-1])
                c = b.cells.get(off)
                o = c and (c[2] if isinstance(c[2], (int, SymInt)) else None)
            E.trace.append((self.__name__, E.blocks[v] if isinstance(v, int) and v in E.blocks else v, o))
        r = self.result(ret, v)
        return r if self.errcheck is None else self.errcheck(r, self, args)
    def result(self, ret, v):
        t = self.restype
        if t is None: return None
        if ret is None: v = SymInt(E.fresh(z3.IntSort(), "garbage"))
        if not isinstance(t, type) or not issubclass(t, CData):
            if callable(t): return t(wrap(v, 4, "s"))
            raise TypeError("restype must be a type, a callable, or None")
        if issubclass(t, CSimple) and t._kind == "f": return v if ret == "f64" else SymReal(E.fresh(z3.RealSort(), "garbage"))
        if ret == "f64": v = SymInt(E.fresh(z3.IntSort(), "garbage"))
        b = Block(max(8, t.size()))
        b.put(0, 8, "u", wrap(v, 8, "u") if ret != "i8" else wrap(v, 8, "u"))
        if issubclass(t, CSimple): return from_c(t, b, 0)
        if issubclass(t, CPointer): return pointer_to(t, E.concretize(ti(b.get(0, 8, "u"))))
        return t.view(b.base)


def raw_arg(t, a):
    """How an argument of a declared (or no declared) type reaches the callee."""
    if t is None:
        if a is None: return "p", 0
        if isinstance(a, (int, SymInt, SymBool)): return "i", wrap(a, 4, "s")
        if isinstance(a, CSimple): t = type(a)
        elif isinstance(a, CStruct): t = type(a)
        elif isinstance(a, (CPointer, CArray, Ref, bytes, bytearray, SymBytes)): return "p", address(C["c_void_p"], a)
        else: raise TypeError("Don't know how to convert parameter")
    if not isinstance(t, type): raise Unsupported("argument type")
    if issubclass(t, CSimple): return ("f" if t._kind == "f" else ("p" if t._kind in "pz" else "i")), to_c(t, a)
    if issubclass(t, CPointer): return "p", address(t, a)
    if issubclass(t, CStruct):
        if not isinstance(a, t): raise TypeError("expected %s instance instead of %s" % (t.__name__, type(a).__name__))
        if t.size() > 16: return "none", None
        b, o = a._cell()
        return "i", b.get(o, 8, "u") if t.size() >= 8 else b.get(o, t.size(), "u")
    raise TypeError("bad argument type")


class Lib:
    def __init__(self, name=None, *a, **k): pass
    def __getattr__(self, n):
        if n.startswith("__"): raise AttributeError(n)
        f = Func(n)
        self.__dict__[n] = f
        return f
    def __getitem__(self, n): return Func(n)


class Loader:
    def LoadLibrary(self, name): return Lib(name)


def fake_ctypes():
    m = types.ModuleType("ctypes")
    for k, v in C.items(): setattr(m, k, v)
    m.Structure, m.Array, m.POINTER, m.byref, m.cast, m.string_at = CStruct, CArray, POINTER, Ref, cast, string_at
    m.pointer = lambda o: POINTER(type(o))(o)
    m.sizeof = lambda x: (x if isinstance(x, type) else type(x)).size()
    m.addressof = lambda o: o._addr
    m.CDLL = m.PyDLL = Lib
    m.cdll = m.pydll = Loader()
    m.ArgumentError = ArgumentError
    m._SimpleCData, m._Pointer = CSimple, CPointer
    def missing(n):
        if n.startswith("__"): raise AttributeError(n)
        E.fail("ctypes." + n)
    m.__getattr__ = missing
    return m


CODE = {}


def load_package(directory, name="graphrox"):
    """Executes the package's source with the models in place of ctypes and the builtin numbers."""
    mods = {}
    fc = fake_ctypes()
    b = dict(vars(builtins))
    b.update(SHIMS)
    def load(mod, path, pkg):
        m = types.ModuleType(mod)
        m.__file__, m.__package__ = path, mod if pkg else mod.rpartition(".")[0]
        if pkg: m.__path__ = [os.path.dirname(path)]
        mods[mod] = m
        m.__dict__["__builtins__"] = b
        if path not in CODE:
            with open(path, encoding="utf-8") as f: CODE[path] = compile(f.read(), path, "exec")
        exec(CODE[path], m.__dict__)
        return m
    def find(full):
        if full in mods: return mods[full]
        rel = os.path.join(directory, *full.split(".")[1:])
        for p, pkg in ((rel + ".py", False), (os.path.join(rel, "__init__.py"), True)):
            if os.path.exists(p):
                parent = full.rpartition(".")[0]
                m = load(full, p, pkg)
                if parent in mods: setattr(mods[parent], full.rpartition(".")[2], m)
                return m
        raise ImportError(full)
    def imp(n, g=None, l=None, fromlist=(), level=0):
        if n == "ctypes" and level == 0: return fc
        if n.startswith("ctypes.") and level == 0: raise Unsupported("import " + n)
        if level or n == name or n.startswith(name + "."):
            base = (g or {}).get("__package__", name)
            for _ in range(level - 1): base = base.rpartition(".")[0]
            full = (base + "." + n if n else base) if level else n
            m = find(full)
            for x in fromlist or ():
                if not hasattr(m, x):
                    try: find(full + "." + x)
                    except ImportError: pass
            return m if fromlist or level else mods[name]
        return __import__(n, g, l, fromlist, level)
    b["__import__"] = imp
    return load(name, os.path.join(directory, "__init__.py"), True)


# ------------------------------------------------------------------ the C library, as specified
SG, SC, SM = z3.DeclareSort("G"), z3.DeclareSort("C"), z3.DeclareSort("M")
I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
MAX = HUGE - 1
UF = {}


def uf(name, *sorts):
    if name not in UF: UF[name] = z3.Function(name, *sorts)
    return UF[name]


def ranged(t, hi=MAX):
    """A value the library may return: any number up to `hi`."""
    E.s.add(t >= 0, t <= hi)
    return SymInt(t, 0, hi)


def known(t, hi):
    if E.long: return E.long
    """The concrete value of a length, of at most `hi`."""
    E.s.add(t >= 0, t <= hi)
    return E.concretize(t)


def byte_list(f, t, extra, n):
    if E.long: return [(i * 7 + i // 256) % 256 for i in range(E.long)]
    return [ranged(f(t, *(extra + [z3.IntVal(i)])), 255) for i in range(n)]


class Graph:
    """A graph: the edges its history left, or (derived graphs) an unknown one named by how it was derived."""
    def __init__(self, und, term, opaque=False):
        self.u, self.t, self.opaque, self.f, self.n = und, term, opaque, [], z3.IntVal(0)
    @staticmethod
    def new(und):
        return Graph(SymBool(z3.BoolVal(und)), z3.Const("new_undirected" if und else "new_directed", SG))
    @staticmethod
    def derived(t): return Graph(SymBool(uf("g_und", SG, B)(t)), t, True)
    def dup(self):
        g = Graph(self.u, self.t, self.opaque)
        g.f, g.n = [list(x) for x in self.f], self.n
        return g
    def grow(self, v, ok=True): self.n = z3.If(z3.And(ok, v + 1 > self.n), v + 1, self.n)
    def only(self):
        if self.opaque: E.fail("a derived graph is changed")
    def add_edge(self, a, b):
        self.only()
        a, b = ti(a), ti(b)
        ok = z3.And(a != MAX, b != MAX)
        und = z3.is_true(z3.simplify(self.u.t))
        for x, y in [(a, b)] + ([(b, a)] if und else []):
            for q in self.f: q[2] = z3.And(q[2], z3.Not(z3.And(q[0] == x, q[1] == y)))
            self.f.append([x, y, ok])
        self.grow(a, ok); self.grow(b, ok)
        self.t = uf("g_add", SG, I, I, SG)(self.t, a, b)
    def delete_edge(self, a, b):
        self.only()
        a, b = ti(a), ti(b)
        und = z3.is_true(z3.simplify(self.u.t))
        for q in self.f:
            hit = z3.And(q[0] == a, q[1] == b)
            if und: hit = z3.Or(hit, z3.And(q[0] == b, q[1] == a))
            q[2] = z3.And(q[2], z3.Not(hit))
        self.t = uf("g_del", SG, I, I, SG)(self.t, a, b)
    def add_vertex(self, v, l=()):
        self.only()
        if len(l) > 16:
            # Many known neighbours: the graph is named by them, and nothing else is known of it
            k = [z3.simplify(ti(x)) for x in [v] + list(l)]
            if not all(z3.is_int_value(x) for x in k): E.fail("many unknown neighbours")
            self.t, self.opaque = z3.Const("g_vertex_%s_%s" % (z3.simplify(self.t), digest(k)), SG), True
            return
        self.grow(ti(v), ti(v) != MAX)
        for x in l: self.add_edge(v, x)
        if not l: self.t = uf("g_vertex", SG, I, SG)(self.t, ti(v))
    def und(self): return self.u
    def exists(self, a, b):
        a, b = ti(a), ti(b)
        if self.opaque: return SymBool(uf("g_has", SG, I, I, B)(self.t, a, b))
        return SymBool(z3.Or([z3.And(q[2], q[0] == a, q[1] == b) for q in self.f] + [z3.BoolVal(False)]))
    def _count(self, cond): return SymInt(z3.Sum([z3.If(cond(q), 1, 0) for q in self.f] + [z3.IntVal(0)]), 0, MAX)
    def vc(self): return ranged(uf("g_vc", SG, I)(self.t)) if self.opaque else SymInt(self.n, 0, MAX)
    def ec(self): return ranged(uf("g_ec", SG, I)(self.t)) if self.opaque else self._count(lambda q: q[2])
    def out_deg(self, v): return ranged(uf("g_out", SG, I, I)(self.t, ti(v))) if self.opaque else self._count(lambda q: z3.And(q[2], q[0] == ti(v)))
    def in_deg(self, v): return ranged(uf("g_in", SG, I, I)(self.t, ti(v))) if self.opaque else self._count(lambda q: z3.And(q[2], q[1] == ti(v)))
    def edges(self):
        if E.long: return Long("long_edge", E.long, 2)
        if self.opaque:
            n = known(uf("g_ec", SG, I)(self.t), 2)
            return [(ranged(uf("g_from", SG, I, I)(self.t, z3.IntVal(i))), ranged(uf("g_to", SG, I, I)(self.t, z3.IntVal(i)))) for i in range(n)]
        return [(SymInt(q[0], 0, MAX), SymInt(q[1], 0, MAX)) for q in self.f if E.branch(q[2])]
    def outs(self, v):
        if E.long: return Long("long_out", E.long, 1)
        if self.opaque: return [ranged(uf("g_outs", SG, I, I, I)(self.t, ti(v), z3.IntVal(i))) for i in range(known(uf("g_out", SG, I, I)(self.t, ti(v)), 2))]
        return [SymInt(q[1], 0, MAX) for q in self.f if E.branch(z3.And(q[2], q[0] == ti(v)))]
    def ins(self, v):
        if E.long: return Long("long_in", E.long, 1)
        if self.opaque: return [ranged(uf("g_ins", SG, I, I, I)(self.t, ti(v), z3.IntVal(i))) for i in range(known(uf("g_in", SG, I, I)(self.t, ti(v)), 2))]
        return [SymInt(q[0], 0, MAX) for q in self.f if E.branch(z3.And(q[2], q[1] == ti(v)))]
    def bytes(self): return SymBytes(byte_list(uf("g_bytes", SG, I, I), self.t, [], known(uf("g_size", SG, I)(self.t), 2)))
    def text(self): return long_text() if E.long else SymText([ranged_char(uf("g_text", SG, I, I)(self.t, z3.IntVal(i))) for i in range(known(uf("g_textlen", SG, I)(self.t), 2))])
    def approx(self, d, t): return Graph.derived(uf("g_approx", SG, I, R, SG)(self.t, ti(d), tr(t)))
    def pool(self, d): return Matrix(uf("g_pool", SG, I, SM)(self.t, ti(d)))
    def compress(self, l): return Compressed(uf("g_compress", SG, I, SC)(self.t, ti(l)))


def long_text(): return SymText([32 + (i * 5 + i // 95) % 95 for i in range(E.long)])


def ranged_char(t):
    E.s.add(t >= 1, t <= 127)
    return SymInt(t, 1, 127)


class Compressed:
    def __init__(self, t): self.t = t
    def dup(self): return Compressed(self.t)
    def und(self): return SymBool(uf("c_und", SC, B)(self.t))
    def exists(self, a, b): return SymBool(uf("c_has", SC, I, I, B)(self.t, ti(a), ti(b)))
    def vc(self): return ranged(uf("c_vc", SC, I)(self.t))
    def ec(self): return ranged(uf("c_ec", SC, I)(self.t))
    def level(self): return ranged(uf("c_level", SC, I)(self.t), 255)
    def entry(self, a, b): return ranged(uf("c_entry", SC, I, I, I)(self.t, ti(a), ti(b)))
    def bytes(self): return SymBytes(byte_list(uf("c_bytes", SC, I, I), self.t, [], known(uf("c_size", SC, I)(self.t), 2)))
    def text(self): return long_text() if E.long else SymText([ranged_char(uf("c_text", SC, I, I)(self.t, z3.IntVal(i))) for i in range(known(uf("c_textlen", SC, I)(self.t), 2))])
    def decompress(self): return Graph.derived(uf("c_decompress", SC, SG)(self.t))


class Matrix:
    def __init__(self, t): self.t = t
    def dup(self): return Matrix(self.t)
    def dim(self): return ranged(uf("m_dim", SM, I)(self.t))
    def count(self): return ranged(uf("m_count", SM, I)(self.t))
    def get(self, a, b): return SymReal(uf("m_get", SM, I, I, R)(self.t, ti(a), ti(b)))
    def text(self, d): return long_text() if E.long else SymText([ranged_char(uf("m_text", SM, I, I, I)(self.t, ti(d), z3.IntVal(i))) for i in range(known(uf("m_textlen", SM, I, I)(self.t, ti(d)), 2))])
    def entries(self):
        if E.long: return Long("long_entry", E.long, 3, (0,))
        n = known(uf("m_count", SM, I)(self.t), 2)
        return [(SymReal(uf("m_val", SM, I, R)(self.t, z3.IntVal(i))), ranged(uf("m_col", SM, I, I)(self.t, z3.IntVal(i))), ranged(uf("m_row", SM, I, I)(self.t, z3.IntVal(i)))) for i in range(n)]


def digest(k): return hashlib.sha256(" ".join(map(str, k)).encode()).hexdigest()[:32]


def parse(kind, v):
    """What bytes denote: unknown, but a function of the bytes; None if they do not parse."""
    n = len(v)
    if n > 256:
        # Many known bytes: the graph is named by them
        k = [x if isinstance(x, int) else z3.simplify(ti(x)) for x in v]
        if not all(isinstance(x, int) or z3.is_int_value(x) for x in k): E.fail("many unknown bytes")
        d = "%s_%d_%s" % (kind, n, digest(k))
        if not E.branch(z3.Const(d + "_ok", B)): return None
        return Graph.derived(z3.Const(d, SG)) if kind == "g" else Compressed(z3.Const(d, SC))
    k = [ti(x) for x in v]
    ok = uf("%s_ok%d" % (kind, n), *([I] * n + [B]))(*k) if n else z3.Const(kind + "_ok0", B)
    if not E.branch(ok): return None
    s = SG if kind == "g" else SC
    t = uf("%s_parse%d" % (kind, n), *([I] * n + [s]))(*k) if n else z3.Const(kind + "_parse0", s)
    return Graph.derived(t) if kind == "g" else Compressed(t)


class Handle:
    def __init__(self, kind, obj):
        E.nfresh += 1
        self.kind, self.obj, self.freed = kind, obj, False
        self.addr = 0x5600_0000_0000 + E.nfresh * 64
        E.handles[self.addr] = self


def hnew(kind, obj): return Handle(kind, obj).addr


def hget(kind, a):
    if a == 0: return None
    h = E.handles.get(a)
    if h is None or h.kind != kind: E.fault("the library is given something that is not one of its objects")
    if h.freed: E.fault("an object is used after it was released")
    return h.obj


def hfree(kind):
    def f(a):
        if a == 0: return 0
        h = E.handles.get(a)
        if h is None or h.kind != kind: E.fault("the library is asked to release something that is not one of its objects")
        if h.freed: E.fault("an object is released twice")
        h.freed = True
        return 0
    return f


def bfree(name, sized=True):
    def f(a, n=None):
        if a == 0: return 0
        b = E.blocks.get(a)
        if b is None or b.free != name: E.fault("memory is released that is not the library's, or with another function")
        if b.freed: E.fault("memory is released twice")
        if sized and E.branch(ti(n) != b.count): E.fault("an array is released with a length other than its own")
        b.freed = True
        return 0
    return f


def out(a, size, v):
    if a == 0: return
    b, o = find_block(a)
    if b is None or o + size > b.size: E.fault("the library writes outside the memory it was given")
    b.put(o, size, "u", v)


def give(words, free, n, w, floats=()):
    b = Block(n * w * 8, free, n)
    if isinstance(words, Long): b.long = words; return b.base
    for i, x in enumerate(words): b.put(i * 8, 8, "f" if i % w in floats else "u", x)
    return b.base


def words(e): return e if isinstance(e, Long) else [x for q in e for x in q]


def give_bytes(v, length):
    out(length, 8, len(v))
    b = Block(len(v), "free_gphrx_bytes_buffer", len(v))
    for i, x in enumerate(v): b.put(i, 1, "u", x)
    return b.base


def give_text(t):
    b = Block(len(t.v) + 1, "free_gphrx_string_buffer", 0)
    for i, x in enumerate(t.v + [0]): b.put(i, 1, "u", x)
    return b.base


def take(a, n, size):
    n = E.concretize(ti(n))
    if n == 0: return []
    b, o = find_block(a)
    if b is None: E.fault("the library is given a length without an array")
    if b.freed or o + n * size > b.size: E.fault("the library is given a length beyond the array's end")
    return [b.get(o + i * size, size, "u") for i in range(n)]


SIG, LIB = {}, {}


def fn(name, sig, ret):
    def d(f): SIG[name], LIB[name] = (sig.split(), ret), f; return f
    return d


def nullable(kind, f, null=0):
    def g(h, *a):
        o = hget(kind, h)
        return null if o is None else f(o, *a)
    return g


for n in ("graph", "compressed_graph", "matrix"): fn("free_gphrx_" + n, "h", None)(hfree({"graph": "G", "compressed_graph": "C", "matrix": "M"}[n]))
for n in ("edge_list", "vertex_list", "bytes_buffer", "matrix_entry_list"): fn("free_gphrx_" + n, "p u64", None)(bfree("free_gphrx_" + n))
fn("free_gphrx_string_buffer", "p", None)(bfree("free_gphrx_string_buffer", False))
fn("gphrx_new_undirected", "", "p")(lambda: hnew("G", Graph.new(True)))
fn("gphrx_new_directed", "", "p")(lambda: hnew("G", Graph.new(False)))
for p, k, pre in (("gphrx_", "G", "g"), ("gphrx_compressed_graph_", "C", "c")):
    def from_bytes(a, n, err, k=k, pre=pre):
        out(err, 1, 0)
        if a == 0 and E.branch(ti(n) != 0): out(err, 1, 1); return 0
        o = parse(pre, take(a, n, 1))
        if o is None: out(err, 1, 1); return 0
        return hnew(k, o)
    fn(p + "from_bytes", "p u64 p", "p")(from_bytes)
    fn(p + "duplicate", "h", "p")(nullable(k, lambda g, k=k: hnew(k, g.dup())))
    fn(p + "matrix_string", "h", "p")(nullable(k, lambda g: give_text(g.text())))
    fn(p + "to_bytes", "h p", "p")(nullable(k, lambda g, l: give_bytes(g.bytes().v, l)))
    fn(p + "is_undirected", "h", "i8")(nullable(k, lambda g: SymInt(ti(g.und()), 0, 1)))
    fn(p + "vertex_count", "h", "u64")(nullable(k, lambda g: g.vc()))
    fn(p + "edge_count", "h", "u64")(nullable(k, lambda g: g.ec()))
    fn(p + "does_edge_exist", "h u64 u64", "i8")(nullable(k, lambda g, a, b: SymInt(ti(g.exists(a, b)), 0, 1)))
fn("gphrx_find_avg_pool_matrix", "h u64", "p")(nullable("G", lambda g, d: hnew("M", g.pool(d))))
fn("gphrx_approximate", "h u64 f64", "p")(nullable("G", lambda g, d, t: hnew("G", g.approx(d, t))))
fn("gphrx_compress", "h u8", "p")(nullable("G", lambda g, l: hnew("C", g.compress(SymInt(z3.If(ti(l) < 1, 1, z3.If(ti(l) > 64, 64, ti(l))))))))


def edge_list(g, l):
    e = g.edges()
    out(l, 8, len(e))
    return give(words(e), "free_gphrx_edge_list", len(e), 2)


def vertex_list(v, l):
    out(l, 8, len(v))
    return give(v, "free_gphrx_vertex_list", len(v), 1)


def add_vertex(g, v, a, n):
    if a == 0 and E.branch(ti(n) != 0): return 0
    g.add_vertex(v, take(a, n, 8))
    return 0


fn("gphrx_get_edge_list", "h p", "p")(nullable("G", edge_list))
fn("gphrx_add_vertex", "h u64 p u64", None)(nullable("G", add_vertex))
fn("gphrx_add_edge", "h u64 u64", None)(nullable("G", lambda g, a, b: g.add_edge(a, b)))
fn("gphrx_delete_edge", "h u64 u64", None)(nullable("G", lambda g, a, b: g.delete_edge(a, b)))
fn("gphrx_get_vertex_in_edges_list", "h u64 p", "p")(nullable("G", lambda g, v, l: vertex_list(g.ins(v), l)))
fn("gphrx_get_vertex_out_edges_list", "h u64 p", "p")(nullable("G", lambda g, v, l: vertex_list(g.outs(v), l)))
fn("gphrx_get_vertex_in_degree", "h u64", "u64")(nullable("G", lambda g, v: g.in_deg(v)))
fn("gphrx_get_vertex_out_degree", "h u64", "u64")(nullable("G", lambda g, v: g.out_deg(v)))
fn("gphrx_compressed_graph_compression_level", "h", "u64")(nullable("C", lambda g: g.level()))
fn("gphrx_get_compressed_matrix_entry", "h u64 u64", "u64")(nullable("C", lambda g, a, b: g.entry(a, b)))
fn("gphrx_decompress", "h", "p")(nullable("C", lambda g: hnew("G", g.decompress())))
fn("gphrx_matrix_duplicate", "h", "p")(nullable("M", lambda m: hnew("M", m.dup())))
fn("gphrx_matrix_dimension", "h", "u64")(nullable("M", lambda m: m.dim()))
fn("gphrx_matrix_entry_count", "h", "u64")(nullable("M", lambda m: m.count()))
fn("gphrx_matrix_get_entry", "h u64 u64", "f64")(nullable("M", lambda m, a, b: m.get(a, b), 0.0))
fn("gphrx_matrix_to_string", "h", "p")(nullable("M", lambda m: give_text(m.text(2))))
fn("gphrx_matrix_to_string_with_precision", "h u64", "p")(nullable("M", lambda m, d: give_text(m.text(d))))


def entry_list(m, l):
    e = m.entries()
    out(l, 8, len(e))
    return give(words(e), "free_gphrx_matrix_entry_list", len(e), 3, (0,))


fn("gphrx_matrix_get_entry_list", "h p", "p")(nullable("M", entry_list))


# ------------------------------------------------------------------ harness interface
class Rec:
    """A specified object whose answers are remembered for replay."""
    def __init__(self, o): self._o = o
    def __getattr__(self, n):
        f = getattr(self._o, n)
        def g(*a):
            v = f(*a)
            if isinstance(v, (Graph, Compressed, Matrix)): v = Rec(v)
            E.refs.append((n, v))
            return v
        return g


class Env:
    """What the harness functions see; harness/pywrap.py runs them natively with another one."""
    native = False
    def __init__(self, params): self.params = params
    def param(self, k, d): return self.params.get(k, d)
    def u64(self):
        t = z3.Int("u%d" % len(E.inputs)); E.inputs.append(("u64", t))
        E.s.add(t >= 0, t < HUGE)
        return SymInt(t, 0, MAX)
    def integer(self):
        t = z3.Int("i%d" % len(E.inputs)); E.inputs.append(("int", t))
        return SymInt(t)
    def byte(self):
        t = z3.Int("b%d" % len(E.inputs)); E.inputs.append(("byte", t))
        E.s.add(t >= 0, t < 256)
        return SymInt(t, 0, 255)
    def real(self):
        t = z3.Real("r%d" % len(E.inputs)); E.inputs.append(("real", t))
        return SymReal(t)
    def choose(self, n):
        t = z3.Int("c%d" % len(E.inputs))
        E.s.add(t >= 0, t < n)
        v = E.concretize(t)
        E.inputs.append(("choose", v))
        return v
    def some_bytes(self, v): return SymBytes(v) if v else b""
    def assume(self, c): E.assume(tb(c))
    def check(self, c, m): E.check(c, m)
    def cover(self, m): E.covers.add(m)
    def all(self, l): return SymBool(z3.And([tb(x) for x in l] + [z3.BoolVal(True)]))
    def any(self, l): return SymBool(z3.Or([tb(x) for x in l] + [z3.BoolVal(False)]))
    def no(self, c): return SymBool(z3.Not(tb(c)))
    def is_int(self, x): return isinstance(x, (int, SymInt)) and not isinstance(x, bool)
    def is_bool(self, x): return isinstance(x, (bool, SymBool))
    def is_float(self, x): return isinstance(x, (float, SymReal))
    def is_bytes(self, x): return isinstance(x, (bytes, SymBytes))
    def is_str(self, x): return isinstance(x, (str, SymText))
    def same_records(self, a, b, header): return same_seq(a, b)
    def same_text(self, a, b): return SymBool(tb(a == b))
    def same_real(self, a, b): return SymBool(tr(a) == tr(b))
    def ite(self, c, a, b): return SymInt(z3.If(tb(c), ti(a), ti(b)))
    def as_real(self, x): return _float(x)
    def graph(self, und): return Rec(Graph.new(und))
    def parse(self, kind, v):
        o = parse(kind, v)
        E.refs.append(("parse", None if o is None else Rec(o)))
        return None if o is None else E.refs[-1][1]
    def big(self, n): E.long = n
    def fill(self, g, r, n): pass
    def long(self, w, kind, n):
        """A list of n elements from the library, and what is at each index of it."""
        E.long = n
        g = w.Graph()
        l = [g.edge_list, lambda: g.vertex_out_edges(0), lambda: g.vertex_in_edges(0), lambda: g.find_avg_pool_matrix(1).entry_list()][kind]()
        ref = [Long("long_edge", n, 2), Long("long_out", n, 1), Long("long_in", n, 1), Long("long_entry", n, 3, (0,))][kind]
        return l, lambda i: ref.at(i) if kind in (0, 3) else ref.at(i)[0]
    def live(self):
        gc.collect()
        return sum(not h.freed for h in E.handles.values()) + sum(b.free is not None and not b.freed and b.size > 0 for b in E.blocks.values())
    def load(self): return load_package(E.directory)


def run_path(directory, func, params, prefix, stats):
    global E
    E = Path(prefix, stats)
    E.blocks, E.handles, E.keep, E.called, E.directory, E.long = {}, {}, [], set(), directory, 0
    env = Env(params)
    sys.unraisablehook = lambda a: None
    try:
        func(env)
    except Abort:
        pass
    except Unsupported as e:
        E.unsup = E.unsup or str(e)
    except RecursionError:
        E.unsup = "recursion"
    except Exception as e:
        tbk = e.__traceback__
        where = []
        while tbk: where.append("%s:%d" % (os.path.basename(tbk.tb_frame.f_code.co_filename), tbk.tb_lineno)); tbk = tbk.tb_next
        try:
            if not E.dead: E.violation("exception", "unexpected %s: %s (%s)" % (type(e).__name__, e, " < ".join(reversed(where[-4:]))))
        except (Abort, Unsupported): pass
        e.__traceback__ = None
    p = E
    finished = not p.dead
    if finished and not p.unsup and p.checks:
        if p.sat(): p.sample = p.model_inputs(p.s.model())
    p.dead = True
    env = None
    gc.collect()                          # what is left must not run against the next path
    return p
