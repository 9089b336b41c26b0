"""Structural CBOR: cbor2.dumps/loads over values with symbolic leaves.

A term is a tuple:
  ('i', int)  ('b', bytes)  ('s', str)  ('l', items)  ('m', ((k, v), ...))
  ('t', tag, item)  ('c', constant)  ('r', raw bytes of some other item)
Encodings are the definite-length shortest ones cbor2 produces, so the encoding
of a term is injective and self-delimiting.  Fully concrete terms become real
bytes; others become a Cb atom.
"""
import struct
import cbor2
import z3
from . import sym
from .sym import (Conc, Var, Cb, SymBytes, SymStr, SymInt, SymBool, SymDict, And, Or,
                  mkbytes, mkstr, mkint, isbytes, isstr)

real_dumps = cbor2.dumps
real_loads = cbor2.loads


class Encoder:
    """What a default= callback receives."""

    def __init__(self, default):
        self._default = default
        self.items = []

    def encode(self, obj):
        self.items.append(to_term(obj, self._default))

    def encode_to_bytes(self, obj):
        return term_to_value(to_term(obj, self._default))


def to_term(o, default=None, depth=0):
    if depth > 40:
        raise RecursionError("maximum recursion depth exceeded")
    t = type(o)
    if t is SymInt:
        return ("i", o)
    if t is SymBytes:
        return ("b", o)
    if t is SymStr:
        return ("s", o)
    if t is SymBool:
        return ("c", bool(o))
    if o is None or t is bool or t is float:
        return ("c", o)
    if t is int:
        if -(1 << 64) <= o < (1 << 64):
            return ("i", o)
        return ("r", real_dumps(o))
    if t is bytes or t is bytearray:
        return ("b", bytes(o))
    if t is str:
        return ("s", o)
    if isinstance(o, dict) and (t is SymDict or issubclass(t, dict)):
        return ("m", tuple((to_term(k, default, depth + 1), to_term(v, default, depth + 1))
                           for k, v in o.items()))
    if issubclass(t, (list, tuple)):
        return ("l", tuple(to_term(x, default, depth + 1) for x in o))
    if issubclass(t, int) and not isinstance(o, type):
        return ("i", int(o))
    if t.__name__ == "Raw" and t.__module__.startswith("vt."):
        return ("r", bytes(o.b))
    if t is cbor2.CBORTag or t.__name__ == "CBORTag":
        return ("t", tag_number(o.tag), to_term(o.value, default, depth + 1))
    if o is cbor2.undefined:
        return ("c", o)
    # something cbor2 may know natively (datetime, Decimal, ...)?
    if not isinstance(o, type) and t.__module__.split(".")[0] in ("datetime", "decimal", "fractions", "uuid",
                                                                 "ipaddress", "re", "collections", "builtins",
                                                                 "cbor2", "_cbor2", "email"):
        try:
            return ("r", real_dumps(o))
        except cbor2.CBOREncodeError:
            pass
    if default is not None:
        e = Encoder(default)
        default(e, o)
        if len(e.items) == 1:
            return e.items[0]
        return ("x", tuple(e.items))
    raise cbor2.CBOREncodeTypeError("cannot serialize type %s" % t.__name__)


# tags whose content cbor2 converts itself
NATIVE = (0, 1, 2, 3, 4, 5, 25, 28, 29, 30, 35, 36, 37, 100, 256, 258, 260, 261, 1004, 43000, 55799)


def tag_number(n):
    if type(n) is SymInt:
        for k in NATIVE:
            if n == k:
                return k
        return n
    return int(n)


class SymTag:
    """cbor2.CBORTag with a symbolic number"""

    def __init__(self, tag, value):
        self.tag, self.value = tag, value

    @property
    def __class__(self):
        return cbor2.CBORTag


SymTag.__name__ = "CBORTag"


def head(major, n):
    if n < 24:
        return bytes([major << 5 | n])
    if n < 1 << 8:
        return bytes([major << 5 | 24, n])
    if n < 1 << 16:
        return bytes([major << 5 | 25]) + struct.pack(">H", n)
    if n < 1 << 32:
        return bytes([major << 5 | 26]) + struct.pack(">I", n)
    return bytes([major << 5 | 27]) + struct.pack(">Q", n)


def concrete(term):
    k = term[0]
    if k in ("i", "b", "s"):
        return not sym.is_proxy(term[1])
    if k in ("c", "r"):
        return True
    if k == "l" or k == "x":
        return all(concrete(t) for t in term[1])
    if k == "m":
        return all(concrete(a) and concrete(b) for a, b in term[1])
    if k == "t":
        return type(term[1]) is not SymInt and concrete(term[2])
    return False


def term_bytes(term):
    k, v = term[0], term[1]
    if k == "i":
        return head(0, v) if v >= 0 else head(1, -1 - v)
    if k == "b":
        return head(2, len(v)) + v
    if k == "s":
        u = v.encode("utf-8")
        return head(3, len(u)) + u
    if k == "l":
        return head(4, len(v)) + b"".join(term_bytes(t) for t in v)
    if k == "x":
        return b"".join(term_bytes(t) for t in v)
    if k == "m":
        return head(5, len(v)) + b"".join(term_bytes(a) + term_bytes(b) for a, b in v)
    if k == "t":
        return head(6, v) + term_bytes(term[2])
    if k == "c":
        return real_dumps(v)
    return v


def term_to_value(term):
    """bytes or a one-atom rope."""
    if concrete(term):
        return term_bytes(term)
    return SymBytes((Cb(term),))


def dumps(obj, default=None, canonical=False, **kw):
    term = to_term(obj, default)
    if canonical:
        term = canon(term)
    return term_to_value(term)


def canon(term):
    k = term[0]
    if k == "l":
        return ("l", tuple(canon(t) for t in term[1]))
    if k == "t":
        return ("t", term[1], canon(term[2]))
    if k == "m":
        ps = [(canon(a), canon(b)) for a, b in term[1]]
        ps = [(a if concrete(a) else conc_term(a), b) for a, b in ps]
        ps.sort(key=lambda p: (len(term_bytes(p[0])), term_bytes(p[0])))
        return ("m", tuple(ps))
    return term


def conc_term(t):
    if t[0] in ("i", "b", "s"):
        return (t[0], sym.concretize(t[1], "canonical map key"))
    return t


# -- decoding ---------------------------------------------------------------------

def from_term(term, immutable=False):
    k, v = term[0], term[1]
    if k in ("i", "b", "s", "c"):
        return v
    if k == "r":
        return wrap(real_loads(v))
    if k == "l":
        xs = [from_term(t, immutable) for t in v]
        return tuple(xs) if immutable else xs
    if k == "m":
        d = SymDict()
        for a, b in v:
            d[from_term(a, True)] = from_term(b)
        return d
    if k == "t":
        if type(v) is SymInt:
            return SymTag(v, from_term(term[2]))
        if v in NATIVE:
            return wrap(real_loads(sym.concretize(term_to_value(term), "CBOR tag converted by cbor2")))
        return cbor2.CBORTag(v, from_term(term[2]))
    raise AssertionError(term)


def wrap(o):
    """result of the real cbor2.loads -> engine containers"""
    t = type(o)
    if t is dict:
        return sym.sdict([(k, wrap(v)) for k, v in o.items()])
    if t is list:
        return [wrap(x) for x in o]
    if t is cbor2.CBORTag:
        return cbor2.CBORTag(o.tag, wrap(o.value))
    return o


WIRE = {}  # data-variable tag -> decoded term, for opaque (non-canonical) encodings


def loads(s, *a, **k):
    if type(s) is SymBytes:
        r = s._r
        first = r[0]
        if type(first) is Cb:
            t = first.term
            return from_term(t[1][0] if t[0] == "x" else t)
        if type(first) is Var and first.tag in WIRE:
            return from_term(WIRE[first.tag])
        if type(first) is Conc:
            # a literal first item followed by symbolic bytes
            try:
                return wrap(real_loads(first.b))
            except cbor2.CBORDecodeError:
                pass
        s = sym.concretize(s, "cbor2.loads")
    elif isinstance(s, (sym.SymInt, sym.SymBool)):
        s = 0  # not bytes: the library's TypeError, whatever the value
    elif isinstance(s, sym.SymStr):
        s = "x"
    elif sym.is_proxy(s):
        s = sym.concretize(s, "cbor2.loads")
    return wrap(real_loads(s, *a, **k))


# -- comparison and lowering ------------------------------------------------------

def term_eq(a, b):
    if a is b:
        return True
    ka, kb = a[0], b[0]
    if ka != kb:
        if "r" in (ka, kb) or "x" in (ka, kb):
            if concrete(a) and concrete(b):
                return term_bytes(a) == term_bytes(b)
        return False
    if ka == "i":
        return sym.bexpr(a[1] == b[1])
    if ka == "b" or ka == "s":
        return sym._beq(a[1], b[1])
    if ka == "c":
        return a[1] is b[1] or (type(a[1]) is type(b[1]) and a[1] == b[1])
    if ka == "r":
        return a[1] == b[1]
    if ka in ("l", "x"):
        if len(a[1]) != len(b[1]):
            return False
        cs = []
        for x, y in zip(a[1], b[1]):
            c = term_eq(x, y)
            if c is False:
                return False
            cs.append(c)
        return And(*cs)
    if ka == "m":
        if len(a[1]) != len(b[1]):
            return False
        cs = []
        for (x, y), (p, q) in zip(a[1], b[1]):
            for c in (term_eq(x, p), term_eq(y, q)):
                if c is False:
                    return False
                cs.append(c)
        return And(*cs)
    if ka == "t":
        c = sym.bexpr(a[1] == b[1])
        return False if c is False else And(c, term_eq(a[2], b[2]))
    raise AssertionError(ka)


def raw_term(o):
    """real cbor2 object -> term"""
    return to_term(o)


def term_eq_bytes(term, b):
    if not b:
        return False
    try:
        o = real_loads(b)
        t = to_term(o)
        if not concrete(t) or term_bytes(t) != b:
            return False
    except Exception:
        return False
    return term_eq(term, t)


def head_len(n):
    if isinstance(n, int):
        return len(head(0, n))
    return z3.If(n < 24, 1, z3.If(n < 256, 2, z3.If(n < 65536, 3, 5)))


def term_len(term):
    k, v = term[0], term[1]
    if concrete(term):
        return len(term_bytes(term))
    if k == "i":
        e = sym.iexpr(v)
        n = z3.If(e >= 0, e, -1 - e)
        return z3.If(n < 24, 1, z3.If(n < 256, 2, z3.If(n < 65536, 3, z3.If(n < 2 ** 32, 5, 9))))
    if k in ("b", "s"):
        n = sym.lenx(v)
        return head_len(n) + n
    if k == "l":
        return len(head(4, len(v))) + sum([term_len(t) for t in v])
    if k == "x":
        return sum([term_len(t) for t in v])
    if k == "m":
        return len(head(5, len(v))) + sum([term_len(a) + term_len(b) for a, b in v])
    if k == "t":
        return (term_len(("i", v)) if type(v) is SymInt else len(head(6, v))) + term_len(term[2])
    raise AssertionError(k)


def low_head(major, n):
    """(data, len, cap) of the head for a z3 Int n < 65536."""
    n8 = z3.Int2BV(n, 16)
    lo = z3.Extract(7, 0, n8)
    a = z3.Concat((lo | z3.BitVecVal(major << 5, 8)), z3.BitVecVal(0, 16))
    b = z3.Concat(z3.BitVecVal(major << 5 | 24, 8), lo, z3.BitVecVal(0, 8))
    c = z3.Concat(z3.BitVecVal(major << 5 | 25, 8), n8)
    return z3.If(n < 24, a, z3.If(n < 256, b, c)), head_len(n), 3


def term_low(term):
    k, v = term[0], term[1]
    if concrete(term):
        return Conc(term_bytes(term)).low()
    if k == "i":
        e = sym.iexpr(v)
        neg = e < 0
        n = z3.If(neg, -1 - e, e)
        mj = z3.If(neg, z3.BitVecVal(0x20, 8), z3.BitVecVal(0, 8))
        nb = z3.Int2BV(n, 64)

        def z(bits):
            return z3.BitVecVal(0, bits)
        f = [z3.Concat(mj | z3.Extract(7, 0, nb), z(64)),
             z3.Concat(mj | 24, z3.Extract(7, 0, nb), z(56)),
             z3.Concat(mj | 25, z3.Extract(15, 0, nb), z(48)),
             z3.Concat(mj | 26, z3.Extract(31, 0, nb), z(32)),
             z3.Concat(mj | 27, nb)]
        d = z3.If(n < 24, f[0], z3.If(n < 256, f[1], z3.If(n < 65536, f[2], z3.If(n < 2 ** 32, f[3], f[4]))))
        return d, term_len(term), 9
    if k in ("b", "s"):
        n = sym.lenx(v)
        mj = 2 if k == "b" else 3
        h = Conc(head(mj, n)).low() if isinstance(n, int) else low_head(mj, n)
        return sym.low_concat(h, sym.low_rope(sym.atoms_of(v)))
    if k in ("l", "x"):
        acc = Conc(head(4, len(v))).low() if k == "l" else (None, 0, 0)
        for t in v:
            acc = sym.low_concat(acc, term_low(t))
        return acc
    if k == "m":
        acc = Conc(head(5, len(v))).low()
        for a, b in v:
            acc = sym.low_concat(sym.low_concat(acc, term_low(a)), term_low(b))
        return acc
    if k == "t":
        if type(v) is SymInt:
            d, n, cap = term_low(("i", v))
            return sym.low_concat((d | z3.Concat(z3.BitVecVal(0xC0, 8), z3.BitVecVal(0, 64)), n, cap),
                                  term_low(term[2]))
        return sym.low_concat(Conc(head(6, v)).low(), term_low(term[2]))
    raise AssertionError(k)
