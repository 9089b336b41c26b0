"""Methods of text and byte strings with symbolic contents: searching, splitting, character classes.

The length is fixed by forking; what depends on the contents forks on solver-decided conditions, so nothing is pinned."""
import z3
from . import sym
from .sym import SymBytes, SymStr, And, Or, isbytes, isstr, mkbool, concretize, lenx

DIGIT, UPPER, LOWER = [(48, 57)], [(65, 90)], [(97, 122)]
ALPHA = UPPER + LOWER
SPACE = {str: [(9, 13), (28, 32)], bytes: [(9, 13), (32, 32)]}


def among(b, ranges):
    return Or(*[And(z3.UGE(b, lo), z3.ULE(b, hi)) for lo, hi in ranges])


def every(ranges):
    def method(self):
        bs = self._bytes_at()
        if not bs:
            return False
        r = ranges if isinstance(ranges, list) else ranges[self.__class__]
        return mkbool(And(*[among(b, r) for b in bs]))
    return method


def cased(good, bad):
    def method(self):
        bs = self._bytes_at()
        return mkbool(And(Or(*[among(b, good) for b in bs]), *[z3.Not(among(b, bad)) for b in bs])) if bs else False
    return method


def isidentifier(self):
    bs = self._bytes_at()
    if not bs:
        return False
    first = ALPHA + [(95, 95)]
    return mkbool(And(among(bs[0], first), *[among(b, first + DIGIT) for b in bs[1:]]))


def isascii(self):
    return mkbool(And(*[z3.ULE(b, 127) for b in self._bytes_at()])) if len(self) else True


def bounds(n, start, end):
    return slice(None if start is None else int(start), None if end is None else int(end)).indices(n)[:2]


def checked(self, x):
    """the thing searched for, as a string of the same kind"""
    if self.__class__ is str:
        if not isstr(x):
            raise TypeError("must be str, not %s" % sym.type_name(x))
    elif not isbytes(x):
        if isinstance(x, int):
            return bytes([int(x)])
        raise TypeError("a bytes-like object is required, not '%s'" % sym.type_name(x))
    return x


def places(self, sub, start, end, order):
    n, k = len(self), len(sub)
    lo, hi = bounds(n, start, end)
    r = range(lo, hi - k + 1)
    for i in (r if order > 0 else reversed(r)):
        if self[i:i + k] == sub:
            return i
    return -1


def find(self, sub, start=None, end=None):
    return places(self, checked(self, sub), start, end, 1)


def rfind(self, sub, start=None, end=None):
    return places(self, checked(self, sub), start, end, -1)


def index(self, sub, start=None, end=None):
    i = find(self, sub, start, end)
    if i < 0:
        raise ValueError("substring not found")
    return i


def rindex(self, sub, start=None, end=None):
    i = rfind(self, sub, start, end)
    if i < 0:
        raise ValueError("substring not found")
    return i


def pieces(self, sep, limit):
    out, at = [], 0
    n, k = len(self), len(sep)
    while limit != 0:
        i = places(self, sep, at, None, 1)
        if i < 0:
            break
        out.append(self[at:i])
        at, limit = i + k, limit - 1
    out.append(self[at:n])
    return out


def split(self, sep=None, maxsplit=-1):
    if sep is None:
        return concretize(self, "split").split(None, maxsplit)
    sep = checked(self, sep)
    if not len(sep):
        raise ValueError("empty separator")
    return pieces(self, sep, int(maxsplit))


def count(self, sub, start=None, end=None):
    lo, hi = bounds(len(self), start, end)
    sub = checked(self, sub)
    if not len(sub):
        return max(0, hi - lo + 1)
    return len(pieces(self[lo:hi], sub, -1)) - 1 if hi > lo else 0


def replace(self, old, new, count=-1):
    old, new = checked(self, old), checked(self, new)
    if not len(old):
        return concretize(self, "replace").replace(concretize(old, "replace"), concretize(new, "replace"), count)
    parts = pieces(self, old, int(count))
    out = parts[0]
    for p in parts[1:]:
        out = out + new + p
    return out


def partition(self, sep):
    i = find(self, sep)
    empty = "" if self.__class__ is str else b""
    return (self, empty, empty) if i < 0 else (self[:i], sep, self[i + len(sep):])


def rpartition(self, sep):
    i = rfind(self, sep)
    empty = "" if self.__class__ is str else b""
    return (empty, empty, self) if i < 0 else (self[:i], sep, self[i + len(sep):])


def removeprefix(self, p):
    return self[len(p):] if len(self) >= len(p) and self.startswith(p) else self


def removesuffix(self, p):
    return self[:len(self) - len(p)] if len(p) and len(self) >= len(p) and self.endswith(p) else self


def contains(self, x):
    if self.__class__ is bytes and not isbytes(x):
        for b in self:
            if b == x:
                return True
        return False
    return find(self, x) >= 0


def zfill(self, width):
    n, width = len(self), int(width)
    zero, signs = ("0", "+-") if self.__class__ is str else (b"0", b"+-")
    if n >= width:
        return self
    if n and contains_any(self[:1], signs):
        return self[:1] + zero * (width - n) + self[1:]
    return zero * (width - n) + self


def contains_any(c, chars):
    return any(c == chars[i:i + 1] for i in range(len(chars)))


def swapcase(self):
    return self._map(lambda b: z3.If(among(b, LOWER), b - 32, z3.If(among(b, UPPER), b + 32, b)))


def capitalize(self):
    n = len(self)
    return self[:1].upper() + self[1:].lower() if n else self


def title(self):
    out = self[:0]
    inside = False
    for i in range(len(self)):
        c = self[i:i + 1]
        out = out + (c.lower() if inside else c.upper())
        inside = bool(c.isalpha())
    return out


def upper_bytes(self):
    return self._map(lambda b: z3.If(among(b, LOWER), b - 32, b))


def lower_bytes(self):
    return self._map(lambda b: z3.If(among(b, UPPER), b + 32, b))


def map_bytes(self, f):
    return sym.mkbytes(atoms(SymStr._map(sym.mkstr(self._r), f)))


def atoms(v):
    return tuple(sym.atoms_of(v))


COMMON = dict(isdigit=every(DIGIT), isalpha=every(ALPHA), isalnum=every(ALPHA + DIGIT), isspace=every(SPACE),
              isupper=cased(UPPER, LOWER), islower=cased(LOWER, UPPER), find=find, rfind=rfind, index=index, rindex=rindex,
              split=split, count=count, partition=partition, rpartition=rpartition, removeprefix=removeprefix,
              removesuffix=removesuffix, zfill=zfill, swapcase=swapcase, capitalize=capitalize, title=title,
              __contains__=contains)
MORE = {"startswith", "endswith", "replace", "strip", "lstrip", "rstrip", "ljust", "rjust"}
for name, f in COMMON.items():
    setattr(SymStr, name, f)
    setattr(SymBytes, name, f)
SymStr.isdecimal = SymStr.isnumeric = SymStr.isdigit
SymStr.isidentifier = isidentifier
SymStr.isprintable = lambda self: mkbool(And(*[among(b, [(32, 126)]) for b in self._bytes_at()])) if len(self) else True
SymBytes.isascii = isascii
SymBytes.replace = replace
SymBytes._map = map_bytes
SymBytes.upper, SymBytes.lower = upper_bytes, lower_bytes
_one = SymStr.replace
SymStr.replace = lambda self, old, new, count=-1: _one(self, old, new, count) if type(old) is str and type(new) is str \
    and len(old) == 1 and len(new) == 1 and count == -1 else replace(self, old, new, count)
