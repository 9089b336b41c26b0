"""Symbolic values and the path context.

The code under test runs in CPython; its inputs are proxies whose truth value
is decided by z3.  A byte string is a *rope*: a tuple of atoms.

  Conc(b)               literal bytes
  Var(data, len, cap)   up to cap bytes; data is a bit-vector of 8*cap bits,
                        left aligned, zero beyond len; len is an int or a z3 Int
  Cb(term)              the CBOR encoding of a structural term (see cborm.py)

Every atom can be lowered to (data, len, cap), so equality of any two ropes is
a bit-vector formula; CBOR atoms are compared structurally where they line up
(the encoding is injective and self-delimiting).
"""
import sys
import time
import z3

sys.set_int_max_str_digits(0)

BYTES = bytes
CLS = "__class__"


class Control(BaseException):
    """Engine control flow: never visible to the code under test."""


class PathEnd(Control):
    """The path is infeasible or ends on purpose."""


class Abort(Control):
    """A limit was reached; the path is incomplete."""


class Diverged(Control):
    """A re-executed prefix did not meet the same decisions."""


class Stats:
    FIELDS = ("queries", "solver_s", "branches", "paths", "unknown", "discharged",
              "checks", "pins")

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)
        self.solver_s = 0.0
        self.pin_sites = {}

    def asdict(self):
        return {f: getattr(self, f) for f in self.FIELDS}


class Opts:
    query_ms = 20000
    max_branches = 4000
    fork_cap = 400
    more_models = 3
    path_s = 60


CTX = None


def mark(v):
    """Symbolic values appear in printed text as a mark, so that texts can be compared (symenv.same_text)."""
    if CTX is None:
        return "<sym>"
    lst = CTX.__dict__.setdefault("printed", [])
    lst.append(v)
    return "\u27e6%d\u27e7" % (len(lst) - 1)


def ctx():
    return CTX


def set_ctx(c):
    global CTX
    CTX = c


class Ctx:
    def __init__(self, prefix, stats, opts=Opts):
        self.prefix = prefix
        self.pos = 0
        self.trace = []
        self.alts = []
        self.stats = stats
        self.opts = opts
        self.solver = z3.Solver()
        self.solver.set("timeout", opts.query_ms)
        self.known = {}
        self.keep = []
        self.model = None
        self.inputs = {}
        self.recs = {}
        self.nfresh = 0
        self.notes = []
        self.pinned = 0
        self.counters = {}
        self.checks_reached = 0
        self.alt_dump = None
        self.t0 = time.perf_counter()

    # -- solver ---------------------------------------------------------
    def query(self, *extra):
        self.stats.queries += 1
        t = time.perf_counter()
        r = self.solver.check(*extra)
        self.stats.solver_s += time.perf_counter() - t
        if r == z3.sat:
            self.last = self.solver.model()
        elif r == z3.unknown:
            self.stats.unknown += 1
        return r

    def add(self, c):
        if isinstance(c, bool):
            if not c:
                raise PathEnd("infeasible")
            return
        self.solver.add(c)
        if self.model is not None and not self._holds(self.model, c):
            self.model = None

    @staticmethod
    def _holds(m, c):
        return z3.is_true(m.eval(c, model_completion=True))

    def get_model(self):
        if self.model is None:
            r = self.query()
            if r == z3.unsat:
                raise PathEnd("infeasible")
            if r == z3.unknown:
                raise Abort("solver unknown")
            self.model = self.last
        return self.model

    def branch(self, cond):
        """Decide a condition, forking when both outcomes are possible."""
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        hit = self.known.get(cond.get_id())
        if hit is not None:
            return hit
        self.stats.branches += 1
        if len(self.trace) >= self.opts.max_branches:
            raise Abort("branch limit")
        if time.perf_counter() - self.t0 > self.opts.path_s:
            raise Abort("path time limit")
        d = self._next()
        if d is not None:
            if type(d) is not bool:
                raise Diverged("branch")
            self.trace.append(d)
            self._assume(cond, d)
            return d
        if self.model is not None:
            val = self._holds(self.model, cond)
            other = z3.Not(cond) if val else cond
            r = self.query(other)
            if r == z3.unsat:
                d, both = val, False
            else:
                d, both = True, True
        else:
            r1 = self.query(cond)
            m1 = self.last if r1 == z3.sat else None
            r2 = self.query(z3.Not(cond))
            m2 = self.last if r2 == z3.sat else None
            if r1 == z3.unsat and r2 == z3.unsat:
                raise PathEnd("infeasible")
            if r1 == z3.unsat:
                d, both = False, False
                self.model = m2
            elif r2 == z3.unsat:
                d, both = True, False
                self.model = m1
            else:
                d, both = True, True
                self.model = m1
        if both:
            self.alts.append(self.trace + [False])
        self.trace.append(d)
        self._assume(cond, d)
        return d

    def _assume(self, cond, d):
        c = cond if d else z3.Not(cond)
        self.known[cond.get_id()] = d
        self.keep.append(cond)
        nc = z3.simplify(z3.Not(cond))
        self.known[nc.get_id()] = not d
        self.keep.append(nc)
        self.add(c)

    def assume(self, cond):
        cond = bexpr(cond)
        if isinstance(cond, bool):
            if not cond:
                raise PathEnd("assume")
            return
        self.add(cond)
        if self.model is None:
            r = self.query()
            if r == z3.unsat:
                raise PathEnd("assume")
            if r == z3.sat:
                self.model = self.last

    def _next(self):
        if self.pos < len(self.prefix):
            self.pos += 1
            return self.prefix[self.pos - 1]
        return None

    def fork_value(self, e, as_py=None):
        """Enumerate the feasible values of e completely, one per path.

        The value tried is part of the path's decision list, so a re-execution
        of the prefix does not depend on which model the solver returns."""
        e = z3.simplify(e)
        if z3.is_int_value(e) or z3.is_bv_value(e):
            return e.as_long()
        hit = self.known.get(("v", e.get_id()))
        if hit is not None:
            return hit
        n = 0
        while True:
            ent = self._next()
            if ent is not None:
                if type(ent) is not tuple or ent[0] != "f":
                    raise Diverged("fork")
                _, v, d = ent
            else:
                m = self.get_model()
                v = m.eval(e, model_completion=True).as_long()
                self.stats.branches += 1
                r = self.query(e != v)
                d = True
                if r != z3.unsat:
                    self.alts.append(self.trace + [("f", v, False)])
            self.trace.append(("f", v, d))
            self.add(e == v if d else e != v)
            if d:
                self.known[("v", e.get_id())] = v
                self.keep.append(e)
                return v
            n += 1
            if n > self.opts.fork_cap:
                raise Abort("fork cap")

    def pin(self, e, why):
        """Fix e to one model value; the run records that it is incomplete."""
        e = z3.simplify(e)
        if z3.is_int_value(e) or z3.is_bv_value(e):
            return e
        hit = self.known.get(("v", e.get_id()))
        if hit is None:
            ent = self._next()
            if ent is not None:
                if type(ent) is not tuple or ent[0] != "p":
                    raise Diverged("pin")
                hit = ent[1]
            else:
                hit = self.get_model().eval(e, model_completion=True).as_long()
                if self.query(e != hit) != z3.unsat:
                    self.pinned += 1
                    self.stats.pins += 1
                    self.stats.pin_sites[why] = self.stats.pin_sites.get(why, 0) + 1
            self.trace.append(("p", hit))
            self.add(e == hit)
            self.known[("v", e.get_id())] = hit
            self.keep.append(e)
        return z3.IntVal(hit) if z3.is_int(e) else z3.BitVecVal(hit, e.size())

    def fresh(self, name):
        self.nfresh += 1
        return "%s!%d" % (name, self.nfresh)


# -- formulas -----------------------------------------------------------------

def bexpr(c):
    """Python bool / SymBool / z3 Bool -> Python bool or z3 Bool."""
    if isinstance(c, z3.ExprRef):
        return c
    if type(c) is SymBool:
        return c._e
    return bool(c)


def And(*cs):
    out = []
    for c in cs:
        if c is False:
            return False
        if c is True:
            continue
        out.append(c)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def Or(*cs):
    out = []
    for c in cs:
        if c is True:
            return True
        if c is False:
            continue
        out.append(c)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def Not(c):
    if isinstance(c, bool):
        return not c
    return z3.Not(c)


def Implies(a, b):
    return Or(Not(a), b)


def mkbool(c):
    if isinstance(c, bool):
        return c
    c = z3.simplify(c)
    if z3.is_true(c):
        return True
    if z3.is_false(c):
        return False
    return SymBool(c)


class Proxy:
    __slots__ = ()


class SymBool(Proxy):
    __slots__ = ("_e",)
    __class__ = property(lambda s: bool)

    def __init__(self, e):
        self._e = e

    def __bool__(self):
        return CTX.branch(self._e)

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __hash__(self):
        return hash(bool(self))

    def __eq__(self, o):
        if isinstance(o, bool):
            o = bexpr(o)
            if isinstance(o, bool):
                return mkbool(self._e if o else z3.Not(self._e))
            return mkbool(self._e == o)
        return bool(self) == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return mkbool(Not(bexpr(r)))

    def __and__(self, o):
        if isinstance(o, bool):
            return mkbool(And(self._e, bexpr(o)))
        return int(self) & o

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, bool):
            return mkbool(Or(self._e, bexpr(o)))
        return int(self) | o

    __ror__ = __or__

    def __xor__(self, o):
        return bool(self) ^ o

    __rxor__ = __xor__

    def __add__(self, o):
        return int(self) + o

    __radd__ = __add__

    def __lt__(self, o):
        return int(self) < o

    def __gt__(self, o):
        return int(self) > o

    def __le__(self, o):
        return int(self) <= o

    def __ge__(self, o):
        return int(self) >= o

    def __repr__(self):
        return mark(self)

    __str__ = __repr__

    def __format__(self, spec):
        return mark(self)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


# -- integers -----------------------------------------------------------------

def iexpr(v):
    """int-like -> Python int or z3 Int expression."""
    if type(v) is SymInt:
        if v._bv:
            return z3.BV2Int(v._e)
        return v._e
    if type(v) is SymBool:
        return int(v)
    if isinstance(v, z3.ExprRef):
        return v
    return int(v)


def mkint(e):
    if isinstance(e, int):
        return e
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    return SymInt(e)


def mkbvint(e):
    e = z3.simplify(e)
    if z3.is_bv_value(e):
        return e.as_long()
    return SymInt(e, True)


def _isint(o):
    return type(o) is SymInt or isinstance(o, int)


def _bvpair(a, b):
    """Two non-negative ints, at least one of them a bit-vector, at one width."""
    wa = a._e.size() if type(a) is SymInt else max(1, int(a).bit_length())
    wb = b._e.size() if type(b) is SymInt else max(1, int(b).bit_length())
    w = max(wa, wb)

    def ext(v):
        if type(v) is SymInt:
            return z3.ZeroExt(w - v._e.size(), v._e) if w > v._e.size() else v._e
        return z3.BitVecVal(v, w)
    return ext(a), ext(b), w


def _bvable(a, b):
    def ok(v):
        if type(v) is SymInt:
            return v._bv
        return isinstance(v, int) and v >= 0
    return ok(a) and ok(b)


class SymInt(Proxy):
    __slots__ = ("_e", "_bv")
    __class__ = property(lambda s: int)

    def __init__(self, e, bv=False):
        self._e = e
        self._bv = bv

    # realisation
    def __index__(self):
        if self._bv:
            return CTX.fork_value(self._e, lambda v: v.as_long())
        return CTX.fork_value(self._e, lambda v: v.as_long())

    def __int__(self):
        return self.__index__()

    def __hash__(self):
        v = CTX.pin(self._e, "hash(int)")
        return hash(v.as_long())

    def __bool__(self):
        if self._bv:
            return CTX.branch(self._e != 0)
        return CTX.branch(self._e != 0)

    def _cmp(self, o, iop, bvop):
        if not _isint(o):
            return NotImplemented
        if type(o) is SymBool:
            o = int(o)
        if _bvable(self, o):
            a, b, _ = _bvpair(self, o)
            return mkbool(bvop(a, b))
        return mkbool(iop(iexpr(self), iexpr(o)))

    def __eq__(self, o):
        if isinstance(o, float):
            o = int(o) if o == int(o) else -10 ** 30
        r = self._cmp(o, lambda a, b: a == b, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self.__eq__(o)
        return mkbool(Not(bexpr(r)))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, z3.ULT)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, z3.ULE)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, z3.UGT)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, z3.UGE)

    def _arith(self, o, f):
        if not _isint(o):
            return NotImplemented
        return mkint(f(iexpr(self), iexpr(o)))

    def __add__(self, o):
        return self._arith(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._arith(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._arith(o, lambda a, b: b - a)

    def __mul__(self, o):
        if not _isint(o):
            if isinstance(o, (bytes, str, list, tuple)):
                return o * int(self)
            return NotImplemented
        if type(o) is SymInt:
            o = int(o)
        return self._arith(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __floordiv__(self, o):
        if not _isint(o):
            return NotImplemented
        if type(o) is SymInt:
            o = int(o)
        if o == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        if o < 0:
            return int(self) // o
        return self._arith(o, lambda a, b: a / b)

    def __mod__(self, o):
        if not _isint(o):
            return NotImplemented
        if type(o) is SymInt:
            o = int(o)
        if o == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        if o < 0:
            return int(self) % o
        return self._arith(o, lambda a, b: a % b)

    def __divmod__(self, o):
        return self // o, self % o

    def __rfloordiv__(self, o):
        return o // int(self)

    def __rmod__(self, o):
        if isinstance(o, int):
            return o % int(self)
        return NotImplemented

    def __truediv__(self, o):
        return int(self) / o

    def __rtruediv__(self, o):
        return o / int(self)

    def __pow__(self, o, m=None):
        return pow(int(self), o, m)

    def __rpow__(self, o):
        return pow(o, int(self))

    def __neg__(self):
        return mkint(-iexpr(self))

    def __pos__(self):
        return self

    def __abs__(self):
        e = iexpr(self)
        return mkint(z3.If(e < 0, -e, e))

    def __invert__(self):
        return mkint(-iexpr(self) - 1)

    def _bits(self, o, bvop, pyop):
        if not _isint(o):
            return NotImplemented
        if _bvable(self, o):
            a, b, _ = _bvpair(self, o)
            return mkbvint(bvop(a, b))
        return pyop(int(self), int(o))

    def __xor__(self, o):
        return self._bits(o, lambda a, b: a ^ b, lambda a, b: a ^ b)

    __rxor__ = __xor__

    def __or__(self, o):
        return self._bits(o, lambda a, b: a | b, lambda a, b: a | b)

    __ror__ = __or__

    def __and__(self, o):
        if not self._bv and isinstance(o, int) and type(o) is not SymInt and o >= 0 and (o & (o + 1)) == 0:
            return self % (o + 1)
        return self._bits(o, lambda a, b: a & b, lambda a, b: a & b)

    __rand__ = __and__

    def __lshift__(self, o):
        if type(o) is SymInt:
            o = int(o)
        if not isinstance(o, int):
            return NotImplemented
        if self._bv:
            return mkbvint(z3.Concat(self._e, z3.BitVecVal(0, o)) if o else self._e)
        return mkint(self._e * (1 << o))

    def __rlshift__(self, o):
        return o << int(self)

    def __rshift__(self, o):
        if type(o) is SymInt:
            o = int(o)
        if not isinstance(o, int):
            return NotImplemented
        if self._bv:
            return mkbvint(z3.LShR(self._e, o)) if o < self._e.size() else 0
        return mkint(self._e / (1 << o))

    def __rrshift__(self, o):
        return o >> int(self)

    def bit_length(self):
        if self._bv:
            e = z3.IntVal(0)
            w = self._e.size()
            for i in range(w):
                e = z3.If(z3.Extract(i, i, self._e) == 1, z3.IntVal(i + 1), e)
            return mkint(e)
        return int(self).bit_length()

    def to_bytes(self, length=1, byteorder="big", *, signed=False):
        if type(length) is SymInt:
            length = int(length)
        if signed:
            return int(self).to_bytes(length, byteorder, signed=True)
        if length < 0:
            raise ValueError("length argument must be non-negative")
        if self._bv:
            e = self._e
            w = e.size()
        else:
            if CTX.branch(self._e < 0):
                raise OverflowError("can't convert negative int to unsigned")
            if CTX.branch(self._e >= (1 << (8 * length))):
                raise OverflowError("int too big to convert")
            if length == 0:
                return b""
            e = z3.Int2BV(self._e, 8 * length)
            w = 8 * length
        n = 8 * length
        if w > n:
            if CTX.branch(z3.Extract(w - 1, n, e) != 0):
                raise OverflowError("int too big to convert")
            if n == 0:
                return b""
            e = z3.Extract(n - 1, 0, e)
        elif w < n:
            e = z3.ZeroExt(n - w, e)
        if byteorder == "little":
            e = bv_reverse(e)
        elif byteorder != "big":
            raise ValueError("byteorder must be either 'little' or 'big'")
        return mkbytes([Var(e, length, length)])

    def __repr__(self):
        return mark(self)

    def __str__(self):
        return str(int(self))

    def __format__(self, spec):
        return mark(self)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def bv_reverse(e):
    n = e.size() // 8
    bs = [z3.Extract(8 * i + 7, 8 * i, e) for i in range(n)]
    return z3.Concat(*bs) if n > 1 else e


# -- byte ropes -----------------------------------------------------------------

class Conc:
    __slots__ = ("b",)

    def __init__(self, b):
        self.b = b

    def length(self):
        return len(self.b)

    def low(self):
        n = len(self.b)
        if n > 512:
            # large numerals are slow to make
            return z3.Concat(*[z3.BitVecVal(int.from_bytes(self.b[i:i + 256], "big"), 8 * len(self.b[i:i + 256]))
                               for i in range(0, n, 256)]), n, n
        return (z3.BitVecVal(int.from_bytes(self.b, "big"), 8 * n) if n else None), n, n

    def same(self, o):
        return type(o) is Conc and o.b == self.b


class Var:
    __slots__ = ("data", "len", "cap", "tag")

    def __init__(self, data, length, cap, tag=None):
        self.data = data
        self.len = length
        self.cap = cap
        self.tag = tag

    def length(self):
        return self.len

    def low(self):
        return self.data, self.len, self.cap

    def same(self, o):
        if self is o:
            return True
        return (type(o) is Var and self.cap == o.cap and self.data.eq(o.data)
                and (self.len == o.len if isinstance(self.len, int) and isinstance(o.len, int)
                     else (not isinstance(self.len, int) and not isinstance(o.len, int) and self.len.eq(o.len))))


class Cb:
    """CBOR encoding of a structural term containing symbolic leaves."""
    __slots__ = ("term", "_low")

    def __init__(self, term):
        self.term = term
        self._low = None

    def length(self):
        from . import cborm
        return cborm.term_len(self.term)

    def low(self):
        if self._low is None:
            from . import cborm
            self._low = cborm.term_low(self.term)
        return self._low

    def same(self, o):
        return self is o


def norm(atoms):
    out = []
    for a in atoms:
        if type(a) is Var:
            if isinstance(a.len, int):
                if a.len == 0:
                    continue
                if a.len == a.cap and z3.is_bv_value(a.data):
                    a = Conc(a.data.as_long().to_bytes(a.cap, "big"))
        if type(a) is Conc:
            if not a.b:
                continue
            if out and type(out[-1]) is Conc:
                out[-1] = Conc(out[-1].b + a.b)
                continue
        out.append(a)
    return tuple(out)


def mkbytes(atoms):
    atoms = norm(atoms)
    if not atoms:
        return b""
    if len(atoms) == 1 and type(atoms[0]) is Conc:
        return atoms[0].b
    return SymBytes(atoms)


def mkstr(atoms):
    atoms = norm(atoms)
    if not atoms:
        return ""
    if len(atoms) == 1 and type(atoms[0]) is Conc:
        return atoms[0].b.decode("latin-1")
    return SymStr(atoms)


def isbytes(v):
    return type(v) is SymBytes or isinstance(v, (bytes, bytearray))


def isstr(v):
    return type(v) is SymStr or isinstance(v, str)


def atoms_of(v):
    if type(v) in (SymBytes, SymStr):
        return v._r
    if isinstance(v, str):
        return (Conc(v.encode("latin-1", "replace")),) if v else ()
    v = bytes(v)
    return (Conc(v),) if v else ()


def rope_cap(atoms):
    """most bytes a rope can have"""
    return sum(len(a.b) if type(a) is Conc else a.low()[2] for a in atoms)


def rope_len(atoms):
    tot = 0
    for a in atoms:
        n = a.length()
        tot = tot + n
    return tot


def lenx(v):
    """length of a bytes/str value: int or z3 Int expr."""
    return rope_len(atoms_of(v))


def pad_right(data, cap, newcap):
    if data is None:
        return z3.BitVecVal(0, 8 * newcap) if newcap else None
    if newcap > cap:
        return z3.Concat(data, z3.BitVecVal(0, 8 * (newcap - cap)))
    return data


def low_concat(a, b):
    da, la, ca = a
    db, lb, cb = b
    if ca == 0:
        return b
    if cb == 0:
        return a
    cap = ca + cb
    if isinstance(la, int):
        if la < ca:
            da = z3.Extract(8 * ca - 1, 8 * (ca - la), da) if la else None
            cap = la + cb
        data = z3.Concat(da, db) if da is not None else db
        return data, la + lb, cap
    A = z3.Concat(da, z3.BitVecVal(0, 8 * cb))
    B = z3.Concat(z3.BitVecVal(0, 8 * ca), db)  # b placed at offset ca
    sh = B << (8 * ca)
    out = sh
    for k in range(1, ca + 1):
        out = z3.If(la == k, B << (8 * (ca - k)), out)
    return A | out, la + lb, cap


def low_rope(atoms):
    acc = (None, 0, 0)
    for a in atoms:
        acc = low_concat(acc, a.low())
    return acc


def eq_low(a, b):
    da, la, ca = a
    db, lb, cb = b
    if isinstance(la, int) and isinstance(lb, int) and la != lb:
        return False
    if isinstance(la, int) and la > cb or isinstance(lb, int) and lb > ca:
        return False
    cap = max(ca, cb)
    leq = (la == lb) if not (isinstance(la, int) and isinstance(lb, int)) else True
    if cap == 0:
        return leq
    return And(leq, pad_right(da, ca, cap) == pad_right(db, cb, cap))


def eq_rope(a, b):
    a, b = list(norm(a)), list(norm(b))
    la, lb = rope_len(a), rope_len(b)
    if isinstance(la, int) and isinstance(lb, int) and la != lb:
        return False
    conds = []
    while True:
        while a and b and a[0].same(b[0]):
            a.pop(0), b.pop(0)
        while a and b and a[-1].same(b[-1]):
            a.pop(), b.pop()
        if not a or not b:
            break
        x, y = a[0], b[0]
        if type(x) is Cb and type(y) is Cb:
            from . import cborm
            c = cborm.term_eq(x.term, y.term)
            a.pop(0), b.pop(0)
            if c is False:
                return False
            conds.append(c)
            continue
        if type(x) is Conc and type(y) is Conc:
            n = min(len(x.b), len(y.b))
            if x.b[:n] != y.b[:n]:
                return False
            a[0:1] = [Conc(x.b[n:])] if len(x.b) > n else []
            b[0:1] = [Conc(y.b[n:])] if len(y.b) > n else []
            continue
        lx, ly = x.length(), y.length()
        if isinstance(lx, int) and isinstance(ly, int) and lx == ly and len(a) + len(b) > 2:
            conds.append(eq_low(x.low(), y.low()))
            a.pop(0), b.pop(0)
            continue
        break
    if not a and not b:
        return And(*conds)
    if not a or not b:
        rest = a or b
        for r in rest:
            if type(r) is Cb or type(r) is Conc:
                return False
            n = r.length()
            if isinstance(n, int):
                return False
            conds.append(n == 0)
        return And(*conds)
    # literal against a single CBOR atom: compare through decoding
    for p, q in ((a, b), (b, a)):
        if len(p) == 1 and type(p[0]) is Cb and all(type(t) is Conc for t in q):
            from . import cborm
            c = cborm.term_eq_bytes(p[0].term, b"".join(t.b for t in q))
            return And(*conds, c)
    conds.append(eq_low(low_rope(a), low_rope(b)))
    return And(*conds)


def _beq(a, b):
    """equality formula between bytes-like values."""
    return eq_rope(atoms_of(a), atoms_of(b))


def clamp_index(i, n, default):
    """Python slice index normalisation; i may be None/int/SymInt; n int or z3."""
    if i is None:
        return default
    e = iexpr(i)
    if isinstance(e, int) and isinstance(n, int):
        if e < 0:
            e += n
            return max(0, e)
        return min(e, n)
    if isinstance(e, int):
        if e < 0:
            return z3.If(n + e < 0, z3.IntVal(0), n + e)
        return z3.If(n < e, n, z3.IntVal(e)) if e else 0
    e = z3.If(e < 0, e + n, e)
    e = z3.If(e < 0, z3.IntVal(0), e)
    return z3.If(e > n, n if not isinstance(n, int) else z3.IntVal(n), e)


def simp_int(e):
    if isinstance(e, int):
        return e
    e = z3.simplify(e)
    return e.as_long() if z3.is_int_value(e) else e


def shl_bytes(data, cap, k):
    """shift left by k bytes (k int or z3 Int)."""
    if isinstance(k, int):
        if k == 0:
            return data
        if k >= cap:
            return z3.BitVecVal(0, 8 * cap)
        return data << (8 * k)
    out = z3.BitVecVal(0, 8 * cap)
    for i in range(cap - 1, -1, -1):
        out = z3.If(k == i, data << (8 * i) if i else data, out)
    return out


def mask_len(data, cap, n):
    """zero every byte at index >= n."""
    if isinstance(n, int):
        if n >= cap:
            return data
        m = ((1 << (8 * n)) - 1) << (8 * (cap - n))
        return data & z3.BitVecVal(m, 8 * cap)
    parts = []
    for i in range(cap):
        by = z3.Extract(8 * (cap - i) - 1, 8 * (cap - i - 1), data)
        parts.append(z3.If(n > i, by, z3.BitVecVal(0, 8)))
    return z3.Concat(*parts) if cap > 1 else parts[0]


def slice_rope(atoms, start, stop):
    """start/stop already raw (None/int/SymInt)."""
    atoms = list(norm(atoms))
    n = simp_int(rope_len(atoms))
    # fast paths on concrete-length ends
    s = start if start is None or isinstance(start, int) and type(start) is not SymInt else start
    if (s is None or s == 0) if not type(s) is SymInt else False:
        if stop is None:
            return tuple(atoms)
    if type(start) is not SymInt and type(stop) is not SymInt:
        r = _slice_fast(atoms, start, stop, n)
        if r is not None:
            return r
    a = simp_int(clamp_index(start, n, 0))
    b = simp_int(clamp_index(stop, n, n))
    data, _, cap = low_rope(atoms)
    if cap == 0:
        return ()
    if isinstance(a, int) and isinstance(b, int):
        ln = max(0, b - a)
    else:
        d = b - a
        ln = simp_int(z3.If(d < 0, z3.IntVal(0), d))
    data = shl_bytes(data, cap, a)
    data = mask_len(data, cap, ln)
    ncap = cap
    ub = None
    if isinstance(ln, int):
        ub = ln
    elif isinstance(stop, int) and type(stop) is not SymInt and stop >= 0:
        ub = stop
    elif isinstance(start, int) and type(start) is not SymInt and start < 0:
        ub = -start
    if ub is not None and ub < cap:
        ncap = ub
        if ncap == 0:
            return ()
        data = z3.Extract(8 * cap - 1, 8 * (cap - ncap), data)
    return norm([Var(z3.simplify(data), ln, ncap)])


def _take(atoms, k):
    """first k bytes (k concrete) if the split falls in concrete-length atoms."""
    out, rest = [], list(atoms)
    while k > 0:
        if not rest:
            return out, rest
        a = rest[0]
        n = a.length()
        if not isinstance(n, int):
            return None
        if n <= k:
            out.append(a)
            rest.pop(0)
            k -= n
        else:
            l, r = split_atom(a, n, k)
            out.append(l)
            rest[0] = r
            k = 0
    return out, rest


def _drop_right(atoms, k):
    """split off the last k bytes."""
    rest, out = list(atoms), []
    while k > 0:
        if not rest:
            return rest, out
        a = rest[-1]
        n = a.length()
        if not isinstance(n, int):
            return None
        if n <= k:
            out.insert(0, a)
            rest.pop()
            k -= n
        else:
            l, r = split_atom(a, n, n - k)
            out.insert(0, r)
            rest[-1] = l
            k = 0
    return rest, out


def split_atom(a, n, k):
    if type(a) is Conc:
        return Conc(a.b[:k]), Conc(a.b[k:])
    data, ln, cap = a.low()
    if cap > n:
        data = z3.Extract(8 * cap - 1, 8 * (cap - n), data)
    l = z3.simplify(z3.Extract(8 * n - 1, 8 * (n - k), data))
    r = z3.simplify(z3.Extract(8 * (n - k) - 1, 0, data))
    return Var(l, k, k), Var(r, n - k, n - k)


def _slice_fast(atoms, start, stop, n):
    if isinstance(n, int):
        a = clamp_index(start, n, 0)
        b = clamp_index(stop, n, n)
        if b <= a:
            return ()
        t = _take(atoms, b)
        if t is None:
            return None
        t = _take(t[0], a)
        if t is None:
            return None
        return norm(t[1])
    st = 0 if start is None else start
    if st >= 0 and (stop is None):
        # dropping a prefix: only safe if the prefix is certainly present
        t = _take(atoms, st)
        return None if t is None else norm(t[1])
    if st < 0 and stop is None:
        t = _drop_right(atoms, -st)
        return None if t is None else norm(t[1])
    if st == 0 and stop is not None and stop < 0:
        t = _drop_right(atoms, -stop)
        return None if t is None else norm(t[0])
    if st >= 0 and stop is not None and stop >= 0:
        t = _take(atoms, stop)
        if t is None:
            return None
        if stop <= st:
            return ()
        t = _take(t[0], st)
        return None if t is None else norm(t[1])
    return None


def decode_bytes(m, atoms):
    """Concrete value of a rope under model m."""
    out = b""
    for a in atoms:
        if type(a) is Conc:
            out += a.b
            continue
        data, ln, cap = a.low()
        n = ln if isinstance(ln, int) else m.eval(ln, model_completion=True).as_long()
        v = m.eval(data, model_completion=True).as_long() if cap else 0
        out += v.to_bytes(cap, "big")[:n]
    return out


class _Rope(Proxy):
    __slots__ = ("_r",)

    def __init__(self, atoms):
        self._r = atoms

    def __len__(self):
        n = simp_int(rope_len(self._r))
        if isinstance(n, int):
            return n
        return CTX.fork_value(n, lambda v: v.as_long())

    def __bool__(self):
        for a in self._r:
            n = a.length()
            if isinstance(n, int) and n > 0:
                return True
            if type(a) is Cb:
                return True
        return CTX.branch(rope_len(self._r) > 0)

    def __hash__(self):
        return hash(concretize(self, "hash(%s)" % self.__class__.__name__))

    def __ne__(self, o):
        return mkbool(Not(bexpr(self.__eq__(o))))

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        return mark(self)

    __str__ = __repr__

    def __format__(self, spec):
        return self.__repr__()

    def _bytes_at(self):
        """list of 8-bit expressions after fixing the length by forking"""
        n = len(self)
        data, _, cap = low_rope(self._r)
        out = []
        for i in range(n):
            out.append(z3.Extract(8 * (cap - i) - 1, 8 * (cap - i - 1), data))
        return out


def fix_length(v):
    """Fork on the length; return the rope as one fixed-length atom."""
    n = len(v)
    if n == 0:
        return None, 0
    data, _, cap = low_rope(atoms_of(v))
    if cap > n:
        data = z3.Extract(8 * cap - 1, 8 * (cap - n), data)
    return data, n


class SymBytes(_Rope):
    __slots__ = ()
    __class__ = property(lambda s: bytes)

    def __eq__(self, o):
        if not isbytes(o):
            return False
        return mkbool(_beq(self, o))

    __hash__ = _Rope.__hash__

    def _lex(self, o, strict, flip):
        if not isbytes(o):
            return NotImplemented
        a, b = (o, self) if flip else (self, o)
        da, la, ca = low_rope(atoms_of(a))
        db, lb, cb = low_rope(atoms_of(b))
        cap = max(ca, cb, 1)
        A, B = pad_right(da, ca, cap), pad_right(db, cb, cap)
        lt = Or(z3.ULT(A, B), And(A == B, (la < lb)))
        if strict:
            return mkbool(lt)
        return mkbool(Or(lt, And(A == B, (la == lb))))

    def __lt__(self, o):
        return self._lex(o, True, False)

    def __gt__(self, o):
        return self._lex(o, True, True)

    def __le__(self, o):
        return self._lex(o, False, False)

    def __ge__(self, o):
        return self._lex(o, False, True)

    def __add__(self, o):
        if not isbytes(o):
            raise TypeError("can't concat %s to bytes" % type_name(o))
        return mkbytes(atoms_of(self) + tuple(atoms_of(o)))

    def __radd__(self, o):
        if not isbytes(o):
            return NotImplemented
        return mkbytes(tuple(atoms_of(o)) + atoms_of(self))

    def __mul__(self, o):
        return mkbytes(self._r * max(0, int(o)))

    __rmul__ = __mul__

    def __iter__(self):
        return iter([mkbvint(b) for b in self._bytes_at()])

    def __contains__(self, x):
        if isbytes(x):
            return bool(concretize(x, "in bytes") in concretize(self, "in bytes"))
        for b in self._bytes_at():
            if mkbvint(b) == x:
                return True
        return False

    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.step not in (None, 1):
                if i.step == -1 and i.start is None and i.stop is None:
                    d, n = fix_length(self)
                    return mkbytes([Var(bv_reverse(d), n, n)]) if n else b""
                return concretize(self, "slice step")[i]
            return mkbytes(slice_rope(self._r, i.start, i.stop))
        n = len(self)
        i = int(i)
        if i < 0:
            i += n
        if not 0 <= i < n:
            raise IndexError("index out of range")
        at = slice_rope(self._r, i, i + 1)
        v = mkbytes(at)
        if isinstance(v, bytes) and type(v) is not SymBytes:
            return v[0]
        d, _, _ = low_rope(v._r)
        return mkbvint(d)

    def __bytes__(self):
        return concretize(self, "__bytes__")

    def __mod__(self, o):
        return concretize(self, "bytes %") % o

    # bytes methods
    def hex(self, *a):
        if a:
            return concretize(self, "bytes.hex").hex(*a)
        from . import strm
        return strm.hexlify_str(self)

    def decode(self, encoding="utf-8", errors="strict"):
        enc = encoding.lower().replace("-", "").replace("_", "")
        if enc in ("ascii", "utf8"):
            from . import strm
            if strm.all_ascii(self):
                return mkstr(self._r)
        return concretize(self, "bytes.decode").decode(encoding, errors)

    def startswith(self, p, *a):
        if a or isinstance(p, tuple):
            return concretize(self, "startswith").startswith(p, *a)
        n = lenx(p)
        return mkbool(And(_beq(self[:mkint(n)], p)))

    def endswith(self, p, *a):
        if a or isinstance(p, tuple):
            return concretize(self, "endswith").endswith(p, *a)
        n = int(len(p))
        if n == 0:
            return True
        return mkbool(_beq(self[-n:], p))

    def rjust(self, width, fill=b" "):
        d, n = fix_length(self)
        width = int(width)
        if n >= width:
            return self
        return mkbytes([Conc(bytes(fill) * (width - n))] + list(self._r))

    def ljust(self, width, fill=b" "):
        d, n = fix_length(self)
        width = int(width)
        if n >= width:
            return self
        return mkbytes(list(self._r) + [Conc(bytes(fill) * (width - n))])

    def lstrip(self, chars=None):
        if chars is None:
            chars = b" \t\n\r\x0b\x0c"
        bs = self._bytes_at()
        if type(chars) is SymBytes:
            chars = chars._bytes_at()
        i = 0
        while i < len(bs) and CTX.branch(Or(*[bs[i] == c for c in chars])):
            i += 1
        return self[i:]

    def rstrip(self, chars=None):
        if chars is None:
            chars = b" \t\n\r\x0b\x0c"
        bs = self._bytes_at()
        if type(chars) is SymBytes:
            chars = chars._bytes_at()
        i = len(bs)
        while i > 0 and CTX.branch(Or(*[bs[i - 1] == c for c in chars])):
            i -= 1
        return self[:i]

    def strip(self, chars=None):
        r = self.lstrip(chars)
        return r.rstrip(chars) if chars is not None else r.rstrip()

    def join(self, parts):
        return concretize(self, "join").join([concretize(p, "join") for p in parts])

    def __getattr__(self, name):
        if name.startswith("__") or not hasattr(bytes, name):
            raise AttributeError("'bytes' object has no attribute '%s'" % name)

        def call(*a, **k):
            return getattr(concretize(self, "bytes." + name), name)(*deep_conc(a), **deep_conc(k))
        return call


class SymStr(_Rope):
    """ASCII text of bounded length (one byte per character)."""
    __slots__ = ()
    __class__ = property(lambda s: str)

    def __eq__(self, o):
        if not isstr(o):
            return False
        if type(o) is not SymStr and not o.isascii():
            return False
        return mkbool(_beq(self, o))

    __hash__ = _Rope.__hash__

    def __add__(self, o):
        if not isstr(o):
            raise TypeError('can only concatenate str (not "%s") to str' % type_name(o))
        return mkstr(atoms_of(self) + tuple(atoms_of(o)))

    def __radd__(self, o):
        if not isstr(o):
            return NotImplemented
        return mkstr(tuple(atoms_of(o)) + atoms_of(self))

    def __mul__(self, o):
        return mkstr(self._r * max(0, int(o)))

    __rmul__ = __mul__

    def __lt__(self, o):
        return SymBytes._lex(mkbytes(self._r), o.encode("ascii", "replace"), True, False)

    def __gt__(self, o):
        return SymBytes._lex(mkbytes(self._r), o.encode("ascii", "replace"), True, True)

    def __iter__(self):
        data, n = fix_length(self)
        return iter([mkstr(slice_rope(self._r, i, i + 1)) for i in range(n)])

    def __contains__(self, x):
        n = len(self)
        k = len(x)
        if k == 0:
            return True
        for i in range(0, n - k + 1):
            if self[i:i + k] == x:
                return True
        return False

    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.step not in (None, 1):
                return concretize(self, "slice step")[i]
            return mkstr(slice_rope(self._r, i.start, i.stop))
        n = len(self)
        i = int(i)
        if i < 0:
            i += n
        if not 0 <= i < n:
            raise IndexError("string index out of range")
        return mkstr(slice_rope(self._r, i, i + 1))

    def _map(self, f):
        out = []
        for a in self._r:
            data, ln, cap = a.low()
            parts = []
            for i in range(cap):
                by = z3.Extract(8 * (cap - i) - 1, 8 * (cap - i - 1), data)
                parts.append(f(by))
            d = z3.Concat(*parts) if cap > 1 else parts[0]
            out.append(Var(z3.simplify(d), ln, cap))
        return mkstr(out)

    def upper(self):
        return self._map(lambda b: z3.If(z3.And(z3.UGE(b, 97), z3.ULE(b, 122)), b - 32, b))

    def lower(self):
        return self._map(lambda b: z3.If(z3.And(z3.UGE(b, 65), z3.ULE(b, 90)), b + 32, b))

    casefold = lower

    def replace(self, old, new, count=-1):
        if count == -1 and type(old) is str and type(new) is str and len(old) == 1 and len(new) == 1 \
                and old.isascii() and new.isascii() and old != "\0":
            return self._map(lambda b: z3.If(b == ord(old), z3.BitVecVal(ord(new), 8), b))
        return concretize(self, "str.replace").replace(old, new, count)

    def encode(self, encoding="utf-8", errors="strict"):
        return mkbytes(self._r)

    def isascii(self):
        return True

    def startswith(self, p, *a):
        if a or isinstance(p, tuple):
            return concretize(self, "startswith").startswith(p, *a)
        return mkbool(_beq(self[:len(p)], p))

    def endswith(self, p, *a):
        if a or isinstance(p, tuple):
            return concretize(self, "endswith").endswith(p, *a)
        n = int(len(p))
        if n == 0:
            return True
        return mkbool(_beq(self[-n:], p))

    def _strip(self, chars, left, right):
        if chars is None:
            chars = " \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f"
        n = len(self)
        i, j = 0, n
        bs = self._bytes_at()

        cs = chars._bytes_at() if type(chars) is SymStr else [ord(c) for c in chars]

        def member(b):
            return CTX.branch(Or(*[b == c for c in cs]))
        while left and i < j and member(bs[i]):
            i += 1
        while right and j > i and member(bs[j - 1]):
            j -= 1
        return self[i:j]

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def ljust(self, width, fill=" "):
        n = len(self)
        return self + fill * max(0, int(width) - n)

    def rjust(self, width, fill=" "):
        n = len(self)
        return fill * max(0, int(width) - n) + self

    def join(self, parts):
        return concretize(self, "join").join([concretize(p, "join") for p in parts])

    def __getattr__(self, name):
        if name.startswith("__") or not hasattr(str, name):
            raise AttributeError("'str' object has no attribute '%s'" % name)

        def call(*a, **k):
            return getattr(concretize(self, "str." + name), name)(*deep_conc(a), **deep_conc(k))
        return call


def type_name(v):
    return v.__class__.__name__


def is_proxy(v):
    return isinstance(type(v), type) and issubclass(type(v), Proxy)


def concretize(v, why):
    """Pin a proxy to one concrete value (recorded as incompleteness)."""
    t = type(v)
    if t is SymBytes or t is SymStr:
        out = b""
        for a in v._r:
            if type(a) is Conc:
                out += a.b
                continue
            data, ln, cap = a.low()
            n = ln if isinstance(ln, int) else CTX.pin(ln, why).as_long()
            x = CTX.pin(data, why).as_long() if cap else 0
            out += x.to_bytes(cap, "big")[:n]
        return out if t is SymBytes else out.decode("latin-1")
    if t is SymInt:
        return CTX.pin(v._e, why).as_long()
    if t is SymBool:
        return bool(v)
    return v


def has_sym(v, depth=3):
    if is_proxy(v):
        return True
    if depth == 0:
        return False
    if isinstance(v, (list, tuple, set, frozenset)):
        return any(has_sym(x, depth - 1) for x in v)
    if isinstance(v, dict):
        return any(has_sym(k, depth - 1) or has_sym(x, depth - 1) for k, x in v.items())
    return False


def deep_conc(v, why="native call", depth=4):
    if is_proxy(v):
        return concretize(v, why)
    if depth == 0:
        return v
    if type(v) is list:
        return [deep_conc(x, why, depth - 1) for x in v] if has_sym(v, depth) else v
    if type(v) is tuple:
        return tuple(deep_conc(x, why, depth - 1) for x in v) if has_sym(v, depth) else v
    if type(v) is SymSet:
        return {deep_conc(x, why, depth - 1) for x in v}
    if isinstance(v, dict):
        if type(v) is not dict or has_sym(v, depth):
            return {deep_conc(k, why, depth - 1): deep_conc(x, why, depth - 1) for k, x in v.items()}
    return v


# -- construction ---------------------------------------------------------------

def new_bytes(name, lo, hi, cls=None):
    c = CTX
    if hi == 0:
        return b""
    data = z3.BitVec(name, 8 * hi)
    if lo == hi:
        return SymBytes((Var(data, hi, hi, name),))
    ln = z3.Int(name + ".len")
    c.add(z3.And(ln >= lo, ln <= hi))
    for k in range(lo, hi):
        c.add(z3.Implies(ln <= k, z3.Extract(8 * (hi - k) - 1, 8 * (hi - k - 1), data) == 0))
    return SymBytes((Var(data, ln, hi, name),))


def new_str(name, lo, hi):
    b = new_bytes(name, lo, hi)
    if hi == 0:
        return ""
    a = b._r[0]
    for i in range(hi):
        by = z3.Extract(8 * (hi - i) - 1, 8 * (hi - i - 1), a.data)
        CTX.add(z3.ULE(by, 126))
        if isinstance(a.len, int):
            CTX.add(z3.UGE(by, 32))
        else:
            CTX.add(z3.Or(a.len <= i, z3.UGE(by, 32)))
    return SymStr(b._r)


def fresh_bytes(name, n):
    nm = CTX.fresh(name)
    return SymBytes((Var(z3.BitVec(nm, 8 * n), n, n, nm),)) if n else b""


def fresh_bytes_len(name, ln, cap):
    """fresh opaque bytes with a given (symbolic) length."""
    nm = CTX.fresh(name)
    if isinstance(ln, int):
        return fresh_bytes(name, ln)
    if cap == 0:
        return b""
    data = z3.BitVec(nm, 8 * cap)
    for k in range(cap):
        CTX.add(z3.Implies(ln <= k, z3.Extract(8 * (cap - k) - 1, 8 * (cap - k - 1), data) == 0))
    return SymBytes((Var(data, ln, cap, nm),))


def from_bytes_int(v, byteorder="big"):
    """int.from_bytes on a rope: a bit-vector integer."""
    atoms = norm(atoms_of(v))
    data, ln, cap = low_rope(atoms)
    if cap == 0:
        return 0
    if byteorder == "little":
        data, n = fix_length(v)
        return mkbvint(bv_reverse(data)) if n else 0
    if isinstance(ln, int):
        if ln == 0:
            return 0
        if ln < cap:
            data = z3.Extract(8 * cap - 1, 8 * (cap - ln), data)
        return mkbvint(data)
    out = z3.BitVecVal(0, 8 * cap)
    for k in range(1, cap + 1):
        out = z3.If(ln == k, z3.LShR(data, 8 * (cap - k)), out)
    return mkbvint(out)


# -- dictionaries ---------------------------------------------------------------

class _KW:
    """identity wrapper so that a proxy can be a key of the backing dict"""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


def _unw(k):
    return k.v if type(k) is _KW else k


class SymDict(dict):
    """dict whose keys may be symbolic; behaves as an ordinary ordered dict.

    The backing store is self._d; the base dict stays empty."""

    __slots__ = ("_d", "_n")
    __class__ = property(lambda s: dict)
    __hash__ = None

    def __init__(self, *a, **k):
        dict.__init__(self)
        self._d = {}
        self._n = 0
        if a:
            if len(a) > 1:
                raise TypeError("dict expected at most 1 argument, got %d" % len(a))
            self._fill(a[0])
        for kk, v in k.items():
            self[kk] = v

    def _fill(self, o):
        if isinstance(o, dict) or hasattr(o, "keys"):
            for k in o.keys():
                self[k] = o[k]
        else:
            for pair in o:
                k, v = pair
                self[k] = v

    def _find(self, key):
        """the backing key equal to key on this path, or None."""
        if is_proxy(key):
            kc = key.__class__
            for bk in list(self._d):
                k = _unw(bk)
                if k is key:
                    return bk
            for bk in list(self._d):
                k = _unw(bk)
                if kc is int or kc is bool:
                    if not (type(k) is SymInt or isinstance(k, (int, float))):
                        continue
                elif kc is bytes:
                    if not isbytes(k):
                        continue
                elif kc is str:
                    if not isstr(k):
                        continue
                if key == k:
                    return bk
            return None
        if type(key) in (list, set, bytearray) or isinstance(key, dict):
            raise TypeError("unhashable type: '%s'" % type_name(key))
        if isinstance(key, tuple) and has_sym(key):
            for bk in self._d:
                k = _unw(bk)
                if isinstance(k, tuple) and len(k) == len(key) and all(bool(x == y) for x, y in zip(k, key)):
                    return bk
            return None
        if key in self._d:
            # return the stored key itself
            return key
        if self._n:
            for bk in list(self._d):
                if type(bk) is _KW:
                    k = bk.v
                    if isinstance(k, tuple):
                        continue
                    if k.__class__ is int and not isinstance(key, (int, float)):
                        continue
                    if k.__class__ is bytes and not isbytes(key):
                        continue
                    if k.__class__ is str and not isstr(key):
                        continue
                    if k == key:
                        return bk
        return None

    def __getitem__(self, key):
        bk = self._find(key)
        if bk is None and not (key is None and None in self._d):
            if key is not None or None not in self._d:
                raise KeyError(key)
        return self._d[bk]

    def __setitem__(self, key, value):
        bk = self._find(key)
        if bk is None and key is not None:
            if is_proxy(key) or (isinstance(key, tuple) and has_sym(key)):
                bk = _KW(key)
                self._n += 1
            else:
                bk = key
        self._d[bk] = value

    def __delitem__(self, key):
        bk = self._find(key)
        if bk is None and key is not None:
            raise KeyError(key)
        del self._d[bk]
        if type(bk) is _KW:
            self._n -= 1

    def __contains__(self, key):
        if key is None:
            return None in self._d
        return self._find(key) is not None

    def __iter__(self):
        return iter([_unw(k) for k in self._d])

    def __reversed__(self):
        return iter([_unw(k) for k in reversed(self._d)])

    def __len__(self):
        return len(self._d)

    def __bool__(self):
        return bool(self._d)

    def keys(self):
        return _Keys(self)

    def values(self):
        return _Values(self)

    def items(self):
        return _Items(self)

    def get(self, key, default=None):
        if key is None:
            return self._d.get(None, default)
        bk = self._find(key)
        return default if bk is None else self._d[bk]

    def pop(self, key, *default):
        bk = self._find(key)
        if bk is None and not (key is None and None in self._d):
            if default:
                return default[0]
            raise KeyError(key)
        v = self._d.pop(bk)
        if type(bk) is _KW:
            self._n -= 1
        return v

    def popitem(self):
        bk, v = self._d.popitem()
        if type(bk) is _KW:
            self._n -= 1
        return _unw(bk), v

    def setdefault(self, key, default=None):
        if key in self:
            return self[key]
        self[key] = default
        return default

    def update(self, *a, **k):
        if a:
            self._fill(a[0])
        for kk, v in k.items():
            self[kk] = v

    def clear(self):
        self._d.clear()
        self._n = 0

    def copy(self):
        n = SymDict()
        n._d = dict(self._d)
        n._n = self._n
        return n

    __copy__ = copy

    def __deepcopy__(self, memo):
        import copy
        n = SymDict()
        memo[id(self)] = n
        for k, v in self._d.items():
            n._d[_KW(k.v) if type(k) is _KW else copy.deepcopy(k, memo)] = copy.deepcopy(v, memo)
        n._n = self._n
        return n

    def __eq__(self, o):
        if not isinstance(o, dict):
            return NotImplemented
        if len(self) != len(o):
            return False
        for k, v in self.items():
            if k not in o:
                return False
            if not (v == o[k]):
                return False
        return True

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __or__(self, o):
        n = self.copy()
        n.update(o)
        return n

    def __ror__(self, o):
        n = SymDict(o)
        n.update(self)
        return n

    def __ior__(self, o):
        self.update(o)
        return self

    def __repr__(self):
        return "{" + ", ".join("%r: %r" % kv for kv in self.items()) + "}"

    __str__ = __repr__

    @classmethod
    def fromkeys(cls, it, value=None):
        n = SymDict()
        for k in it:
            n[k] = value
        return n


from collections.abc import KeysView, ValuesView, ItemsView  # noqa: E402


class _Keys(KeysView):
    def __init__(self, d):
        self._mapping = d

    def __repr__(self):
        return "dict_keys(%r)" % list(self)


class _Values(ValuesView):
    def __init__(self, d):
        self._mapping = d

    def __iter__(self):
        return iter(list(self._mapping._d.values()))


class _Items(ItemsView):
    def __init__(self, d):
        self._mapping = d

    def __iter__(self):
        return iter([(_unw(k), v) for k, v in self._mapping._d.items()])


def sdict(pairs):
    """Build the dict of a dict display; 1-tuples are ** unpackings."""
    d = SymDict()
    for p in pairs:
        if len(p) == 1:
            d.update(p[0])
        else:
            d[p[0]] = p[1]
    return d


class SymSet(set):
    """set whose elements may be symbolic and which iterates in insertion order, so that a path met again makes the
    same decisions (the order of a real set of classes changes from one process to the next).

    Elements that are not symbolic are kept in the base set as well, for code in C that looks at it."""

    __slots__ = ("_m",)
    __class__ = property(lambda s: set)
    __hash__ = None

    def __init__(self, it=()):
        set.__init__(self)
        self._m = SymDict()
        for x in it:
            self.add(x)

    def add(self, x):
        if x in self._m:
            return
        self._m[x] = None
        if not has_sym(x):
            set.add(self, x)

    def _sync(self):
        set.clear(self)
        for x in self:
            if not has_sym(x):
                set.add(self, x)

    def discard(self, x):
        if x in self._m:
            del self._m[x]
            self._sync()

    def remove(self, x):
        del self._m[x]
        self._sync()

    def pop(self):
        if not self._m:
            raise KeyError("pop from an empty set")
        x = next(iter(self._m))
        self.remove(x)
        return x

    def clear(self):
        self._m.clear()
        set.clear(self)

    def copy(self):
        return SymSet(self)

    __copy__ = copy

    def __deepcopy__(self, memo):
        import copy
        return SymSet([copy.deepcopy(x, memo) for x in self])

    def __reduce__(self):
        return SymSet, (list(self),)

    def __contains__(self, x):
        return x in self._m

    def __iter__(self):
        return iter(list(self._m))

    def __len__(self):
        return len(self._m)

    def __bool__(self):
        return len(self._m) > 0

    def update(self, *its):
        for it in its:
            for x in list(it):
                self.add(x)

    def union(self, *its):
        n = SymSet(self)
        n.update(*its)
        return n

    def difference(self, *its):
        its = [SymSet(i) for i in its]
        return SymSet([x for x in self if not any(x in i for i in its)])

    def intersection(self, *its):
        its = [SymSet(i) for i in its]
        return SymSet([x for x in self if all(x in i for i in its)])

    def symmetric_difference(self, it):
        it = SymSet(it)
        return SymSet([x for x in self if x not in it] + [x for x in it if x not in self])

    def _become(self, n):
        self._m = n._m
        self._sync()

    def difference_update(self, *its):
        self._become(self.difference(*its))

    def intersection_update(self, *its):
        self._become(self.intersection(*its))

    def symmetric_difference_update(self, it):
        self._become(self.symmetric_difference(it))

    def issubset(self, it):
        it = SymSet(it)
        return all(x in it for x in self)

    def issuperset(self, it):
        return all(x in self for x in it)

    def isdisjoint(self, it):
        return not any(x in self for x in it)

    def _op(name, ret=None):
        def op(self, o):
            if not isinstance(o, (set, frozenset, KeysView)) and type(o) is not type({}.keys()):
                return NotImplemented
            r = getattr(self, name)(o)
            return self if ret else r
        return op

    def _rop(name):
        def op(self, o):
            if not isinstance(o, (set, frozenset, KeysView)) and type(o) is not type({}.keys()):
                return NotImplemented
            return getattr(SymSet(o), name)(self)
        return op

    __or__, __ior__, __ror__ = _op("union"), _op("update", 1), _rop("union")
    __and__, __iand__, __rand__ = _op("intersection"), _op("intersection_update", 1), _rop("intersection")
    __sub__, __isub__, __rsub__ = _op("difference"), _op("difference_update", 1), _rop("difference")
    __xor__, __ixor__, __rxor__ = _op("symmetric_difference"), _op("symmetric_difference_update", 1), \
        _rop("symmetric_difference")
    __le__, __ge__ = _op("issubset"), _op("issuperset")
    del _op, _rop

    def __lt__(self, o):
        r = self.__le__(o)
        return r if r is NotImplemented else r and len(self) < len(o)

    def __gt__(self, o):
        r = self.__ge__(o)
        return r if r is NotImplemented else r and len(self) > len(o)

    def __eq__(self, o):
        if not isinstance(o, (set, frozenset)):
            return NotImplemented
        return len(self) == len(o) and all(x in self for x in o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __repr__(self):
        return "{" + ", ".join("%r" % (x,) for x in self) + "}" if self._m else "set()"

    __str__ = __repr__
