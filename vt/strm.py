"""hex and base64 over symbolic bytes / ASCII text (bit-precise)."""
import z3
from . import sym
from .sym import Var, mkbytes, mkstr, bv_reverse


def all_ascii(v):
    data, _, cap = sym.low_rope(sym.atoms_of(v))
    if cap == 0:
        return True
    return sym.CTX.branch(z3.And(*[z3.Extract(8 * i + 7, 8 * i + 7, data) == 0 for i in range(cap)]))


def _hexdigit(n4):
    n = z3.ZeroExt(4, n4)
    return z3.If(z3.ULT(n, 10), n + 48, n + 87)


def hexlify(v):
    data, n = sym.fix_length(v)
    if n == 0:
        return b""
    parts = [_hexdigit(z3.Extract(4 * i + 3, 4 * i, data)) for i in range(2 * n - 1, -1, -1)]
    r = mkbytes([Var(z3.simplify(z3.Concat(*parts)), 2 * n, 2 * n)])
    if type(r) is sym.SymBytes:
        HEXSRC[r._r[0].data.get_id()] = (v, r._r[0].data)
    return r


HEXSRC = {}


def hexlify_str(v):
    r = hexlify(v)
    if isinstance(r, bytes) and type(r) is not sym.SymBytes:
        return r.decode()
    return mkstr(r._r)


def parse_int(v, base):
    """int(x, 16) on hex text produced by hexlify: recover the source bytes."""
    if type(v) in (sym.SymBytes, sym.SymStr) and base == 16 and len(v._r) == 1 and type(v._r[0]) is Var:
        src = HEXSRC.get(v._r[0].data.get_id())
        if src is not None:
            return sym.from_bytes_int(src[0])
    return int(sym.concretize(v, "int(text)"), base) if base is not None else int(sym.concretize(v, "int(text)"))


B64 = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"


def _enc6(x, alt=False):
    x = z3.ZeroExt(2, x)
    c62, c63 = (45, 95) if alt else (43, 47)
    return z3.If(z3.ULT(x, 26), x + 65, z3.If(z3.ULT(x, 52), x + 71, z3.If(z3.ULT(x, 62), x - 4,
                 z3.If(x == 62, z3.BitVecVal(c62, 8), z3.BitVecVal(c63, 8)))))


def b64encode(v, altchars=None, url=False, pad=True):
    data, n = sym.fix_length(v)
    if n == 0:
        return b""
    m = -n % 3
    if m:
        data = z3.Concat(data, z3.BitVecVal(0, 8 * m))
    k = (n + m) // 3 * 4
    parts = [_enc6(z3.Extract(6 * i + 5, 6 * i, data), url) for i in range(k - 1, -1, -1)]
    if m:
        parts = parts[:-m] + ([z3.BitVecVal(61, 8)] * m if pad else [])
    return mkbytes([Var(z3.simplify(z3.Concat(*parts)), len(parts), len(parts))])


def _dec6(c):
    return z3.Extract(5, 0, z3.If(z3.And(z3.UGE(c, 65), z3.ULE(c, 90)), c - 65,
                      z3.If(z3.And(z3.UGE(c, 97), z3.ULE(c, 122)), c - 71,
                      z3.If(z3.And(z3.UGE(c, 48), z3.ULE(c, 57)), c + 4,
                      z3.If(c == 43, z3.BitVecVal(62, 8), z3.BitVecVal(63, 8))))))


def _valid(c):
    return z3.Or(z3.And(z3.UGE(c, 65), z3.ULE(c, 90)), z3.And(z3.UGE(c, 97), z3.ULE(c, 122)),
                 z3.And(z3.UGE(c, 48), z3.ULE(c, 57)), c == 43, c == 47)


def b64decode(v):
    """base64.b64decode for well-formed input; anything else is pinned and
    handed to the real function."""
    import base64
    bs = v._bytes_at()
    n = len(bs)
    if n == 0:
        return b""
    if n % 4 == 0:
        pad = 0
        while pad < 2 and sym.CTX.branch(bs[n - 1 - pad] == 61):
            pad += 1
        body = bs[:n - pad]
        if sym.CTX.branch(z3.And(*[_valid(c) for c in body])):
            sx = [_dec6(c) for c in body] + [z3.BitVecVal(0, 6)] * pad
            d = z3.Concat(*sx)
            out = n // 4 * 3
            if pad:
                d = z3.Extract(8 * out - 1, 8 * pad, d)
            return mkbytes([Var(z3.simplify(d), out - pad, out - pad)])
    return base64.b64decode(sym.concretize(v, "b64decode of malformed text"))
